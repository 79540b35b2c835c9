From 654770ac324fb35602a47fe04d8908cf7b11ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 01/84] fix: escape quotes in a string default

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..1cd887c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1610,7 +1610,7 @@ func generateSequenceClause(sequence *Sequence) string {
 func generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
+		return fmt.Sprintf("DEFAULT '%s'", strings.Replace(defaultVal.strVal, "'", "''", -1)), nil
 	case ValueTypeInt:
 		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
 	case ValueTypeFloat:
-- 
2.43.0


From 31dcf56a03c5d0f993c570aeece939ee51d51050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 02/84] fix: support a boolean default when adding or comparing
 a column

---
 schema/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 1cd887c..f4d1c3a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1317,6 +1317,14 @@ func areSameValue(current, desired *Value) bool {
 	// NOTE: -1 can be changed to '-1' in show create table and valueType is not reliable
 	currentRaw := string(current.raw)
 	desiredRaw := string(desired.raw)
+	if desired.valueType == ValueTypeBool && current.valueType != ValueTypeBool {
+		// MySQL shows a boolean's default as '1' or '0'
+		if strings.ToLower(desiredRaw) == "true" {
+			desiredRaw = "1"
+		} else if strings.ToLower(desiredRaw) == "false" {
+			desiredRaw = "0"
+		}
+	}
 	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
 		// Round "0.00" to "0.0" for comparison with desired.
 		// Ideally we should do this seeing precision in a data type.
@@ -1621,6 +1629,8 @@ func generateDefaultDefinition(defaultVal Value) (string, error) {
 		} else {
 			return "DEFAULT b'0'", nil
 		}
+	case ValueTypeBool:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From 6d8cd572f2efb3f1a35f229297bc071de9f8dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 03/84] fix: keep a column's other changes when removing its
 AUTO_INCREMENT

---
 schema/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f4d1c3a..816776e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -428,8 +428,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
 			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
-				currentColumn.autoIncrement = false
-				definition, err := g.generateColumnDefinition(currentColumn, false)
+				column := currentColumn
+				if desiredColumn != nil {
+					column = *desiredColumn // keep other changes of the column made above
+				}
+				column.autoIncrement = false
+				definition, err := g.generateColumnDefinition(column, false)
 				if err != nil {
 					return ddls, err
 				}
-- 
2.43.0


From 5e1742fd91f6ccebb0df5435b304a0dfa4cc7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 04/84] fix: report a commit that failed instead of success

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From c695331442b8085432c2cdad0f65603545a615a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 05/84] fix: return the error of a failed column or index query

---
 adapter/mssql/mssql.go       | 2 +-
 adapter/postgres/postgres.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..a78c2b0 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -206,7 +206,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..f5f2470 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -225,7 +225,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -273,7 +273,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
-- 
2.43.0


From a30a02a2cb35c73e0f1380a554d043860134c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 06/84] fix: notice when reading the catalog stops halfway

---
 adapter/mssql/mssql.go       | 21 +++++++++++++++++++++
 adapter/mysql/mysql.go       |  9 +++++++++
 adapter/postgres/postgres.go | 21 +++++++++++++++++++++
 adapter/sqlite3/sqlite3.go   |  6 ++++++
 4 files changed, 57 insertions(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a78c2b0..ba56a85 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,6 +47,9 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -245,6 +248,9 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -308,6 +314,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	rows.Close()
 
@@ -345,6 +354,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	indexDefs := make([]*indexDef, 0)
 	for _, definition := range indexDefMap {
@@ -388,6 +400,9 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return defs, nil
 }
@@ -436,6 +451,9 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -460,6 +478,9 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		}
 		triggers = append(triggers, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return triggers, nil
 }
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..21fe4fc 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,6 +41,9 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -75,6 +78,9 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -93,6 +99,9 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f5f2470..4d77362 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,6 +52,9 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -89,6 +92,9 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -265,6 +271,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -290,6 +299,9 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return indexes, nil
 }
 
@@ -318,6 +330,9 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return columnNames, nil
 }
 
@@ -359,6 +374,9 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
@@ -400,6 +418,9 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..12c6d7c 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,6 +41,9 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -67,6 +70,9 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		}
 		ddls = append(ddls, sql)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return ddls, nil
 }
-- 
2.43.0


From f428e0e7177df3072ae98ab43625c6c5466e2d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 07/84] fix: read a view's definition from the database being
 managed

---
 adapter/mysql/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 21fe4fc..2ae71d2 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -72,7 +72,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '%s';", viewName)
+		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = DATABASE() and TABLE_NAME = '%s';", viewName)
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 701160bdfae00df83d51a4231e7b9650ea3b12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 08/84] fix: dump the table itself, not another object on it

---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index 12c6d7c..15395d0 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -48,7 +48,7 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 }
 
 func (d *Sqlite3Database) DumpTableDDL(table string) (string, error) {
-	const query = `select sql from sqlite_master where tbl_name = ?`
+	const query = `select sql from sqlite_master where type = 'table' and tbl_name = ?`
 	var sql string
 	err := d.db.QueryRow(query, table).Scan(&sql)
 	return sql, err
-- 
2.43.0


From 0b5789ca55512fd20d77c67d5533486b294a128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 09/84] fix: tell tables, views and constraints of different
 schemas apart

---
 adapter/postgres/postgres.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 4d77362..1cf7a67 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -66,7 +66,7 @@ var (
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
@@ -225,7 +225,7 @@ FROM pg_attribute f
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
 	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
 
 	schema, table := splitTableName(table)
@@ -312,6 +312,8 @@ FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
 		ON tc.constraint_name = kcu.constraint_name
+		AND tc.table_schema = kcu.table_schema
+		AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -349,10 +351,14 @@ FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
 		ON tc.constraint_name = kcu.constraint_name
+		AND tc.table_schema = kcu.table_schema
+		AND tc.table_name = kcu.table_name
 	JOIN information_schema.constraint_column_usage AS ccu
 		ON tc.constraint_name = ccu.constraint_name
+		AND tc.constraint_schema = ccu.constraint_schema
 	JOIN information_schema.referential_constraints AS rc
 		ON tc.constraint_name = rc.constraint_name
+		AND tc.constraint_schema = rc.constraint_schema
 WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
-- 
2.43.0


From 038cf70d5fee06c210300f6f193e470a77dde73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 10/84] fix: dump a table's indexes one statement each and in a
 stable order

---
 adapter/mssql/mssql.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ba56a85..d9653a0 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -157,6 +157,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
@@ -293,6 +294,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	}
 
 	indexDefMap := make(map[string]*indexDef)
+	indexDefs := make([]*indexDef, 0)
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
 	for rows.Next() {
@@ -313,6 +315,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
+		indexDefs = append(indexDefs, definition)
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -358,10 +361,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From 15535d955ea1353c03580cc6b83c9f21b15bd788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 11/84] fix: apply a foreign key that is added by ALTER TABLE

---
 schema/generator.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 816776e..83a9856 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -575,9 +575,37 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
+	currentTable := findTableByName(g.currentTables, tableName)
+	if currentTable == nil {
+		return nil, fmt.Errorf("%s is performed for inexistent table '%s': '%s'", action, tableName, statement)
+	}
 
-	// Examine indexes in desiredTable to delete obsoleted indexes later
+	if len(desiredForeignKey.constraintName) == 0 {
+		return nil, fmt.Errorf(
+			"Foreign key without constraint symbol was found in table '%s' (index name: '%s', columns: %v). "+
+				"Specify the constraint symbol to identify the foreign key.",
+			tableName, desiredForeignKey.indexName, desiredForeignKey.indexColumns,
+		)
+	}
+
+	currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+	if currentForeignKey == nil {
+		// Foreign key not found, add foreign key.
+		ddls = append(ddls, statement)
+		currentTable.foreignKeys = append(currentTable.foreignKeys, desiredForeignKey)
+	} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+		// Foreign key found but it's different. Drop and add it.
+		switch g.mode {
+		case GeneratorModeMysql:
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+		case GeneratorModePostgres, GeneratorModeMssql:
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+		default:
+		}
+		ddls = append(ddls, statement)
+	}
+
+	// Examine foreign keys in desiredTable to delete obsoleted foreign keys later
 	desiredTable := findTableByName(g.desiredTables, tableName)
 	if desiredTable == nil {
 		return nil, fmt.Errorf("%s is performed before create table '%s': '%s'", action, tableName, statement)
-- 
2.43.0


From a3d6a391e15d2475c66dd6665c991d991dd410b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 12/84] fix: connect to PostgreSQL through a socket directory
 and with any credentials

---
 adapter/postgres/postgres.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 1cf7a67..4b34746 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -439,27 +439,26 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
 	host := ""
+	var options []string
 	if config.Socket == "" {
 		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
 	} else {
-		host = config.Socket
+		// A socket directory can't be the host part of a URL, whose path is the database name.
+		options = append(options, fmt.Sprintf("host=%s", url.QueryEscape(config.Socket)), fmt.Sprintf("port=%d", config.Port))
 	}
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		options = append(options, fmt.Sprintf("sslmode=%s", url.QueryEscape(sslmode)))
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		options = append(options, fmt.Sprintf("sslrootcert=%s", url.QueryEscape(sslrootcert)))
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	// `UserPassword` instead of `PathEscape` so that colon can be escaped.
+	userinfo := url.UserPassword(config.User, config.Password)
+	return fmt.Sprintf("postgres://%s@%s/%s?%s", userinfo, host, url.PathEscape(config.DbName), strings.Join(options, "&"))
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From 81f463e040f62ee14e3ab00e57988cae8d663c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 13/84] fix: report a stream that cannot be read to its end,
 and read on after an empty read

---
 sqlparser/ast.go   | 12 ++++++++++--
 sqlparser/token.go | 29 +++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..1ba639b 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -78,19 +78,27 @@ func ParseStrictDDLWithMode(sql string, mode ParserMode) (Statement, error) {
 // returning a Statement which is the AST representation of the query.
 // The tokenizer will always read up to the end of the statement, allowing for
 // the next call to ParseNext to parse any subsequent SQL statements. When
-// there are no more statements to parse, a error of io.EOF is returned.
+// there are no more statements to parse, a error of io.EOF is returned. When
+// the input can't be read to its end, the error of reading it is returned.
 func ParseNext(tokenizer *Tokenizer) (Statement, error) {
 	if tokenizer.lastChar == ';' {
 		tokenizer.next()
 		tokenizer.skipBlank()
 	}
+	if err := tokenizer.streamError(); err != nil {
+		return nil, err
+	}
 	if tokenizer.lastChar == eofChar {
 		return nil, io.EOF
 	}
 
 	tokenizer.reset()
 	tokenizer.multi = true
-	if yyParse(tokenizer) != 0 {
+	result := yyParse(tokenizer)
+	if err := tokenizer.streamError(); err != nil {
+		return nil, err
+	}
+	if result != 0 {
 		if tokenizer.partialDDL != nil {
 			tokenizer.ParseTree = tokenizer.partialDDL
 			return tokenizer.ParseTree, nil
diff --git a/sqlparser/token.go b/sqlparser/token.go
index fb64320..e56a93e 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -38,6 +38,9 @@ const (
 	ParserModeMssql
 )
 
+// maxEmptyReads is how many reads of nothing in a row are put up with.
+const maxEmptyReads = 100
+
 // Tokenizer is the struct used to generate SQL
 // tokens for the parser.
 type Tokenizer struct {
@@ -59,6 +62,7 @@ type Tokenizer struct {
 	buf     []byte
 	bufPos  int
 	bufSize int
+	readErr error // what ended InStream
 }
 
 // NewStringTokenizer creates a new Tokenizer for the
@@ -973,12 +977,17 @@ func (tkn *Tokenizer) consumeNext(buffer *bytes2.Buffer) {
 }
 
 func (tkn *Tokenizer) next() {
-	if tkn.bufPos >= tkn.bufSize && tkn.InStream != nil {
-		// Try and refill the buffer
-		var err error
-		tkn.bufPos = 0
-		if tkn.bufSize, err = tkn.InStream.Read(tkn.buf); err != io.EOF && err != nil {
-			tkn.LastError = err
+	if tkn.bufPos >= tkn.bufSize && tkn.InStream != nil && tkn.readErr == nil {
+		// Try and refill the buffer. A read of nothing is not the end.
+		tkn.bufPos, tkn.bufSize = 0, 0
+		for i := 0; tkn.bufSize == 0 && tkn.readErr == nil; i++ {
+			tkn.bufSize, tkn.readErr = tkn.InStream.Read(tkn.buf)
+			if i == maxEmptyReads && tkn.bufSize == 0 && tkn.readErr == nil {
+				tkn.readErr = io.ErrNoProgress
+			}
+		}
+		if tkn.readErr != io.EOF && tkn.readErr != nil {
+			tkn.LastError = tkn.readErr
 		}
 	}
 
@@ -994,6 +1003,14 @@ func (tkn *Tokenizer) next() {
 	}
 }
 
+// streamError is the error the input ended with, if it ended with one.
+func (tkn *Tokenizer) streamError() error {
+	if tkn.lastChar == eofChar && tkn.readErr != io.EOF {
+		return tkn.readErr
+	}
+	return nil
+}
+
 // reset clears any internal state.
 func (tkn *Tokenizer) reset() {
 	tkn.ParseTree = nil
-- 
2.43.0


From b991937d6b78cf1a66b01dfbd3b81cb99d5a84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 14/84] fix: compare all of a policy when its condition is
 parenthesised

---
 schema/generator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 83a9856..f3b3e44 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1483,11 +1483,13 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) &&
+		fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) &&
+		fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
-- 
2.43.0


From 6a2a50fc9e67ccb09caa5cd20f1483adc013d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 15/84] fix: drop a column's default before making it an
 identity column

---
 schema/generator.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f3b3e44..ae7e17a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -310,6 +310,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// A default has to go before the column can become an identity column
+				if desiredColumn.defaultDef == nil && !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				// GENERATED AS IDENTITY
 				if !areSameIdentityDefinition(currentColumn.identity, desiredColumn.identity) {
 					if currentColumn.identity == nil {
@@ -330,18 +335,13 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				// default
-				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
-					if desiredColumn.defaultDef == nil {
-						// drop
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-					} else {
-						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
-						if err != nil {
-							return ddls, err
-						}
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name), definition))
+				if desiredColumn.defaultDef != nil && !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
+					// set
+					definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+					if err != nil {
+						return ddls, err
 					}
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name), definition))
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-- 
2.43.0


From cdf99dd66bee8acdf94aeb3fc62e9a1d44bb98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 16/84] fix: drop tables and views in an order the database
 accepts

---
 schema/generator.go | 57 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ae7e17a..39ac93d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -141,13 +141,18 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
-	// Clean up obsoleted tables, indexes, columns
+	// PostgreSQL refuses to drop a table or a column an obsoleted view depends on
+	if g.mode == GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
+	// Clean up obsoleted foreign keys, indexes, columns
+	obsoletedTables := []*Table{}
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 		if desiredTable == nil {
-			// Obsoleted table found. Drop table.
-			ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(currentTable.name)))
-			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
+			// Obsoleted table found. It's dropped below.
+			obsoletedTables = append(obsoletedTables, currentTable)
 			continue
 		}
 
@@ -200,15 +205,29 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
+	// Drop obsoleted tables, after all foreign keys to them
+	for _, table := range sortTablesByReference(obsoletedTables) {
+		ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(table.name)))
+		g.currentTables = removeTableByName(g.currentTables, table.name)
+	}
+
 	// Clean up obsoleted views
+	if g.mode != GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
+	return ddls, nil
+}
+
+func (g *Generator) generateDDLsForAbsentViews() []string {
+	ddls := []string{}
 	for _, currentView := range g.currentViews {
 		if containsString(convertViewNames(g.desiredViews), currentView.name) {
 			continue
 		}
 		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
 	}
-
-	return ddls, nil
+	return ddls
 }
 
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
@@ -1595,6 +1614,32 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+// Order tables so that each one comes before the tables its foreign keys refer to, as far as possible.
+func sortTablesByReference(tables []*Table) []*Table {
+	sorted := []*Table{}
+	visited := map[string]bool{}
+
+	var visit func(table *Table)
+	visit = func(table *Table) {
+		if visited[table.name] {
+			return
+		}
+		visited[table.name] = true
+		for _, other := range tables {
+			for _, foreignKey := range other.foreignKeys {
+				if foreignKey.referenceName == table.name || strings.HasSuffix(table.name, "."+foreignKey.referenceName) {
+					visit(other)
+				}
+			}
+		}
+		sorted = append(sorted, table)
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+	return sorted
+}
+
 func removeTableByName(tables []*Table, name string) []*Table {
 	removed := false
 	ret := []*Table{}
-- 
2.43.0


From e68330e8d24399cf56d72d75f71aa82747de88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 17/84] fix: put moved columns where the schema has them

---
 schema/generator.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 39ac93d..c800862 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -251,6 +251,14 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
 
+	// Names of columns to be kept, in the order DDLs generated so far leave them in. MySQL only.
+	columnOrder := []string{}
+	for _, column := range currentTable.columns {
+		if containsString(convertColumnsToColumnNames(desired.table.columns), column.name) {
+			columnOrder = append(columnOrder, column.name)
+		}
+	}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
@@ -279,6 +287,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					after = " AFTER " + g.escapeSQLName(desired.table.columns[i-1].name)
 				}
 				ddl += after
+				columnOrder = moveString(columnOrder, desiredColumn.name, i)
 			}
 
 			ddls = append(ddls, ddl)
@@ -286,9 +295,8 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			// Change column data type or order as needed.
 			switch g.mode {
 			case GeneratorModeMysql:
-				currentPos := currentColumn.position
-				desiredPos := desiredColumn.position
-				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
+				changeOrder := i >= len(columnOrder) || columnOrder[i] != desiredColumn.name
+				columnOrder = moveString(columnOrder, desiredColumn.name, i)
 
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
 				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
@@ -1614,6 +1622,20 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+// Put str at the position, moving it from wherever it is.
+func moveString(strs []string, str string, position int) []string {
+	ret := []string{}
+	for _, s := range strs {
+		if s != str {
+			ret = append(ret, s)
+		}
+	}
+	if position > len(ret) {
+		position = len(ret)
+	}
+	return append(ret[:position], append([]string{str}, ret[position:]...)...)
+}
+
 // Order tables so that each one comes before the tables its foreign keys refer to, as far as possible.
 func sortTablesByReference(tables []*Table) []*Table {
 	sorted := []*Table{}
-- 
2.43.0


From a47d08b3ed55cd569698b3d076a878acf8389104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 18/84] fix: name a PostgreSQL check constraint and a policy's
 table right outside the public schema

---
 adapter/postgres/postgres.go | 4 ++--
 schema/generator.go          | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 4b34746..ee907a8 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -413,8 +413,8 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesPrefixRegex.ReplaceAllString(roles, "")
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
-			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			policyName, table, permissive, cmd, roles,
+			"CREATE POLICY %s ON %s.%s AS %s FOR %s TO %s",
+			policyName, schema, table, permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
diff --git a/schema/generator.go b/schema/generator.go
index c800862..2ce052c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -372,7 +372,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
 						ddls = append(ddls, ddl)
@@ -389,7 +389,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), currentConstraintName)
@@ -1622,6 +1622,10 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+func tableNameWithoutSchema(name string) string {
+	return name[strings.LastIndex(name, ".")+1:]
+}
+
 // Put str at the position, moving it from wherever it is.
 func moveString(strs []string, str string, position int) []string {
 	ret := []string{}
-- 
2.43.0


From d75a25f6efb02a91d07a6208a8fdeed6bd1238a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 19/84] fix: drop an index outside PostgreSQL's public schema

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 2ce052c..572cb3e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1072,6 +1072,9 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
 	case GeneratorModePostgres:
+		if schema := strings.SplitN(tableName, ".", 2)[0]; schema != "public" {
+			return fmt.Sprintf("DROP INDEX %s.%s", g.escapeSQLName(schema), g.escapeSQLName(indexName))
+		}
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
-- 
2.43.0


From b7ad3987cc1e6c3f58b759a4d854bc0bfbfde0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 20/84] fix: keep the schema of the table a PostgreSQL foreign
 key refers to

---
 schema/generator.go |  7 ++++++-
 schema/parser.go    | 14 ++++++++++++--
 sqlparser/ast.go    |  2 +-
 sqlparser/parser.go |  2 +-
 sqlparser/parser.y  |  2 +-
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 572cb3e..aed3394 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1047,9 +1047,14 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 		referenceColumns = append(referenceColumns, g.escapeSQLName(column))
 	}
 
+	referenceName := g.escapeSQLName(foreignKey.referenceName)
+	if g.mode == GeneratorModePostgres && strings.Contains(foreignKey.referenceName, ".") {
+		referenceName = g.escapeTableName(foreignKey.referenceName)
+	}
+
 	definition += fmt.Sprintf(
 		"(%s) REFERENCES %s (%s) ",
-		strings.Join(indexColumns, ","), g.escapeSQLName(foreignKey.referenceName),
+		strings.Join(indexColumns, ","), referenceName,
 		strings.Join(referenceColumns, ","),
 	)
 
diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..3bc6c7b 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -192,7 +192,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			constraintName:    foreignKeyDef.ConstraintName.String(),
 			indexName:         foreignKeyDef.IndexName.String(),
 			indexColumns:      indexColumns,
-			referenceName:     foreignKeyDef.ReferenceName.String(),
+			referenceName:     referencedTableName(mode, foreignKeyDef.ReferenceName),
 			referenceColumns:  referenceColumns,
 			onDelete:          foreignKeyDef.OnDelete.String(),
 			onUpdate:          foreignKeyDef.OnUpdate.String(),
@@ -357,7 +357,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 					constraintName:    stmt.ForeignKey.ConstraintName.String(),
 					indexName:         stmt.ForeignKey.IndexName.String(),
 					indexColumns:      indexColumns,
-					referenceName:     stmt.ForeignKey.ReferenceName.String(),
+					referenceName:     referencedTableName(mode, stmt.ForeignKey.ReferenceName),
 					referenceColumns:  referenceColumns,
 					onDelete:          stmt.ForeignKey.OnDelete.String(),
 					onUpdate:          stmt.ForeignKey.OnUpdate.String(),
@@ -465,6 +465,16 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 	return table
 }
 
+// Keep the schema of a table a foreign key refers to, unless it's the default one
+func referencedTableName(mode GeneratorMode, tableName sqlparser.TableName) string {
+	table := tableName.Name.String()
+	schema := tableName.Qualifier.String()
+	if mode == GeneratorModePostgres && schema != "" && schema != "public" {
+		return schema + "." + table
+	}
+	return table
+}
+
 // TODO: parse charset in parser.y instead of "detecting" it
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 1ba639b..9657b87 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -1398,7 +1398,7 @@ type ForeignKeyDefinition struct {
 	ConstraintName    ColIdent
 	IndexName         ColIdent
 	IndexColumns      []ColIdent
-	ReferenceName     ColIdent
+	ReferenceName     TableName
 	ReferenceColumns  []ColIdent
 	OnDelete          ColIdent
 	OnUpdate          ColIdent
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..22a9bf9 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -5280,7 +5280,7 @@ yydefault:
 				ConstraintName:   yyDollar[2].colIdent,
 				IndexName:        yyDollar[5].colIdent,
 				IndexColumns:     yyDollar[7].colIdents,
-				ReferenceName:    NewColIdent(yyDollar[10].tableName.Name.String()),
+				ReferenceName:    yyDollar[10].tableName,
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..c4c76a1 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1810,7 +1810,7 @@ foreign_key_without_options:
       ConstraintName: $2,
       IndexName: $5,
       IndexColumns: $7,
-      ReferenceName: NewColIdent($10.Name.String()),
+      ReferenceName: $10,
       ReferenceColumns: $12,
     }
   }
-- 
2.43.0


From 9563af2fca56d869762323f8053f8ffd096f2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 21/84] fix: don't take a table of another schema for the one a
 foreign key refers to

The order obsoleted tables are dropped in confused tables of the same name.
---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index aed3394..5ce1830 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1661,7 +1661,7 @@ func sortTablesByReference(tables []*Table) []*Table {
 		visited[table.name] = true
 		for _, other := range tables {
 			for _, foreignKey := range other.foreignKeys {
-				if foreignKey.referenceName == table.name || strings.HasSuffix(table.name, "."+foreignKey.referenceName) {
+				if foreignKey.referenceName == table.name || "public."+foreignKey.referenceName == table.name {
 					visit(other)
 				}
 			}
-- 
2.43.0


From 5480154b82e06ffaa39ae1bae5004a0b4bb93a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 22/84] fix: manage SQLite tables whose names begin with sqlite
 but are not the engine's own

---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index 15395d0..3a2cd8e 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -26,7 +26,7 @@ func NewDatabase(config adapter.Config) (adapter.Database, error) {
 
 func (d *Sqlite3Database) TableNames() ([]string, error) {
 	rows, err := d.db.Query(
-		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'`,
+		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite\_%' escape '\'`,
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 10cd1860e407e176d97fe148c7b5232561c0b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 23/84] fix: don't split statements at a semicolon inside a
 string, a quoted name or a comment

---
 schema/parser.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 3bc6c7b..1aa9d8a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -419,16 +419,57 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 	}
 }
 
+// Split `;`-concatenated DDLs, but not at a `;` inside a string, a quoted name or a comment.
+func splitDDLs(mode GeneratorMode, str string) []string {
+	ddls := []string{}
+	start := 0
+	for i := 0; i < len(str); i++ {
+		length := 0 // what comes after str[i] up to the end of the string, name or comment it begins
+		rest := str[i+1:]
+		switch c := str[i]; {
+		case c == ';':
+			ddls = append(ddls, str[start:i])
+			start = i + 1
+		case c == '\'' || c == '"' || c == '`':
+			length = quotedLength(rest, c, c != '`')
+		case c == '[' && mode == GeneratorModeMssql:
+			length = quotedLength(rest, ']', false)
+		case c == '#' && mode == GeneratorModeMysql || c == '-' && strings.HasPrefix(rest, "-"):
+			length = strings.Index(rest+"\n", "\n")
+		case c == '/' && strings.HasPrefix(rest, "*"):
+			if end := strings.Index(rest[1:], "*/"); end >= 0 {
+				length = end + 3
+			}
+		}
+		if length > 0 {
+			i += length
+		}
+	}
+	return append(ddls, str[start:])
+}
+
+// Length of a quoted string up to and including the closing quote, or 0 if there's none.
+// A doubled quote is dealt with as two strings in a row.
+func quotedLength(str string, quote byte, escape bool) int {
+	for i := 0; i < len(str); i++ {
+		if str[i] == quote {
+			return i + 1
+		} else if str[i] == '\\' && escape {
+			i++
+		}
+	}
+	return 0
+}
+
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	re := regexp.MustCompilePOSIX("^--.*")
 	str = re.ReplaceAllString(str, "")
 
-	ddls := strings.Split(str, ";")
 	result := []DDL{}
 
-	for _, ddl := range ddls {
+	for _, ddl := range splitDDLs(mode, str) {
 		ddl = strings.TrimSpace(ddl) // TODO: trim trailing comment as well, or ignore it by parser somehow?
 		if len(ddl) == 0 {
 			continue
-- 
2.43.0


From 356223acd1438fddf94c8c4ec0f7e6ba985f2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 24/84] fix: don't escape quotes in strings with backslashes
 outside MySQL

---
 schema/parser.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 1aa9d8a..c0280b7 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -76,6 +76,22 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	return &ret
 }
 
+// Format an AST node as SQL. Only MySQL understands backslashes in a string.
+func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+	if mode == GeneratorModeMysql {
+		return sqlparser.String(node)
+	}
+	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+		if val, ok := node.(*sqlparser.SQLVal); ok && val != nil && val.Type == sqlparser.StrVal {
+			buf.Myprintf("'%s'", strings.Replace(string(val.Val), "'", "''", -1))
+		} else {
+			node.Format(buf)
+		}
+	})
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
 // Assume an integer length. Maybe useful only for index lengths.
 // TODO: Change IndexColumn.Length in parser.y to integer in the first place
 func parseLength(val *sqlparser.SQLVal) (*int, error) {
@@ -121,7 +137,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        sqlparser.String(parsedCol.Type.Check.Where.Expr),
+				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
 				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
@@ -371,10 +387,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = sqlparser.String(stmt.Policy.Using.Expr)
+				using = formatNode(mode, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = sqlparser.String(stmt.Policy.WithCheck.Expr)
+				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -392,12 +408,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: sqlparser.String(stmt.View.Definition),
+				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, sqlparser.String(triggerStatement))
+				body = append(body, formatNode(mode, triggerStatement))
 			}
 
 			return &Trigger{
-- 
2.43.0


From ac364215594825c271a4469e9c97826a13995ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 25/84] fix: notice a change of nothing but the case of a
 string in a view, a trigger or a policy

---
 schema/generator.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 5ce1830..a55c3e3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -688,7 +688,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
+		if foldSQL(currentView.definition, strings.ToLower) != foldSQL(desiredView.definition, strings.ToLower) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
@@ -1413,16 +1413,39 @@ func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
 	if len(triggerA.body) != len(triggerB.body) {
 		return false
 	}
+	fold := func(sql string) string {
+		return strings.ToLower(strings.Replace(sql, " ", "", -1))
+	}
 	for i := 0; i < len(triggerA.body); i++ {
-		bodyA := strings.ToLower(strings.Replace(triggerA.body[i], " ", "", -1))
-		bodyB := strings.ToLower(strings.Replace(triggerB.body[i], " ", "", -1))
-		if bodyA != bodyB {
+		if foldSQL(triggerA.body[i], fold) != foldSQL(triggerB.body[i], fold) {
 			return false
 		}
 	}
 	return true
 }
 
+// Apply `fold` to a formatted SQL, except for the strings in it
+func foldSQL(sql string, fold func(string) string) string {
+	result := ""
+	for len(sql) > 0 {
+		start := strings.IndexByte(sql, '\'')
+		if start < 0 {
+			start = len(sql)
+		}
+		result += fold(sql[:start])
+		sql = sql[start:]
+		if len(sql) > 0 {
+			length := quotedLength(sql[1:], '\'', true)
+			if length == 0 {
+				length = len(sql) - 1
+			}
+			result += sql[:length+1]
+			sql = sql[length+1:]
+		}
+	}
+	return result
+}
+
 func isNullValue(value *Value) bool {
 	return value != nil && value.valueType == ValueTypeValArg && string(value.raw) == "null"
 }
@@ -1518,11 +1541,11 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) &&
+	if foldSQL(policyA.using, strings.ToLower) != foldSQL(policyB.using, strings.ToLower) &&
 		fmt.Sprintf("(%s)", policyA.using) != policyB.using {
 		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) &&
+	if foldSQL(policyA.withCheck, strings.ToLower) != foldSQL(policyB.withCheck, strings.ToLower) &&
 		fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
 		return false
 	}
-- 
2.43.0


From afcc546f17561b3c2dc99e5ae3f61858971ad918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 26/84] fix: format casts as cast(expr as type) outside MySQL

---
 schema/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index c0280b7..8b6382f 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -76,7 +76,7 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	return &ret
 }
 
-// Format an AST node as SQL. Only MySQL understands backslashes in a string.
+// Format an AST node as SQL. Only MySQL understands backslashes in a string and `convert(expr, type)`.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql {
 		return sqlparser.String(node)
@@ -84,6 +84,8 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
 		if val, ok := node.(*sqlparser.SQLVal); ok && val != nil && val.Type == sqlparser.StrVal {
 			buf.Myprintf("'%s'", strings.Replace(string(val.Val), "'", "''", -1))
+		} else if convert, ok := node.(*sqlparser.ConvertExpr); ok && convert != nil && convert.Expr != nil {
+			buf.Myprintf("cast(%v as %v)", convert.Expr, convert.Type)
 		} else {
 			node.Format(buf)
 		}
-- 
2.43.0


From b49e7f0fd005dbcea6eb7b482fc395b2012b23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 27/84] fix: drop an identity before making its column nullable

---
 schema/generator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index a55c3e3..087c4d9 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -329,6 +329,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 
+				// An identity column can't be nullable
+				if currentColumn.identity != nil && desiredColumn.identity == nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
 					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
@@ -351,10 +356,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 							alter += " (" + generateSequenceClause(desiredColumn.sequence) + ")"
 						}
 						ddls = append(ddls, alter)
-					} else if desiredColumn.identity == nil {
-						// remove
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-					} else {
+					} else if desiredColumn.identity != nil {
 						// set
 						// not support changing sequence
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET GENERATED %s", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior))
-- 
2.43.0


From 7ad23177c0874fd9e61827ce8756f7a57a3b91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 28/84] fix: read the columns of SQL Server indexes in their
 order

---
 adapter/mssql/mssql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index d9653a0..576ed02 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -330,7 +330,8 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	ic.is_included_column
 FROM sys.indexes ind
 INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ic.index_id, ic.index_column_id`, schema, table)
 
 	rows, err = d.db.Query(query)
 	if err != nil {
-- 
2.43.0


From af3e976545cec2458abca1a532fedfb0551e2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 29/84] fix: drop the old primary key before adding another one
 on SQL Server

---
 schema/generator.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 087c4d9..9937a38 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -482,6 +482,8 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+			case GeneratorModeMssql:
+				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
 			default:
 			}
 		}
@@ -786,10 +788,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 		if primaryKeyColumn == nil {
 			// If nil, it will be `DROP COLUMN`-ed and we can usually ignore it.
-			// However, it seems like you need to explicitly drop it first for MSSQL.
-			if g.mode == GeneratorModeMssql && (primaryKeyColumn == nil || primaryKeyColumn.name != currentIndex.columns[0].column) {
-				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
-			}
+			// MSSQL needs to drop it explicitly first, which generateDDLsForCreateTable does.
 		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
 			// TODO: handle this. Rename primary key column...?
 			return ddls, fmt.Errorf(
-- 
2.43.0


From 98cbd1c000ac39af4ebe8a0f531da58a5afbcc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 30/84] fix: drop a column's check constraint before the column
 on SQL Server

---
 schema/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 9937a38..12aadc8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -233,13 +233,18 @@ func (g *Generator) generateDDLsForAbsentViews() []string {
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
 	ddls := []string{}
 
-	// Only MSSQL has column default constraints. They need to be deleted before dropping the column.
+	// Only MSSQL has column default constraints. They need to be deleted before dropping the column,
+	// and so do the check constraints of the column.
 	if g.mode == GeneratorModeMssql {
 		for _, column := range currentTable.columns {
 			if column.name == columnName && column.defaultDef != nil && column.defaultDef.constraintName != "" {
 				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.defaultDef.constraintName))
 				ddls = append(ddls, ddl)
 			}
+			if column.name == columnName && column.check != nil && column.check.constraintName != "" {
+				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.check.constraintName))
+				ddls = append(ddls, ddl)
+			}
 		}
 	}
 
-- 
2.43.0


From 876352729b91679dde317958fb95a3275921d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 31/84] fix: keep constraint names of added columns on SQL
 Server

---
 schema/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 12aadc8..0aeabc3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -874,6 +874,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
+		if g.mode == GeneratorModeMssql && column.defaultDef.constraintName != "" {
+			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.defaultDef.constraintName))
+		}
 		definition += def + " "
 	}
 
@@ -886,6 +889,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.check != nil {
+		if g.mode == GeneratorModeMssql && column.check.constraintName != "" {
+			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.check.constraintName))
+		}
 		definition += "CHECK "
 		if column.check.notForReplication {
 			definition += "NOT FOR REPLICATION "
-- 
2.43.0


From 7b02029379ff059421200771ee7f41adc0db490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 32/84] fix: SQL Server indexes are nonclustered unless they
 say otherwise

---
 sqlparser/parser.go | 1422 +++++++++++++++++++++----------------------
 sqlparser/parser.y  |   17 +-
 2 files changed, 720 insertions(+), 719 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 22a9bf9..5350856 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -2455,7 +2455,7 @@ var yyPgo = [...]int{
 	16, 30, 2, 71, 1402, 1401, 1400, 1398, 41, 33,
 	1397, 26, 22, 18, 6, 4, 1396, 1395, 1393, 1,
 	1391, 28, 1390, 5, 1389, 8, 1388, 1384, 1383, 1379,
-	1375, 1374, 1372, 1371, 1368, 1367, 23, 12, 48, 49,
+	1375, 1374, 1372, 1371, 1368, 1367, 12, 23, 48, 49,
 	11, 59, 44, 1364, 15, 1357, 1351, 1187, 759, 1341,
 	1334, 1324, 1322, 123,
 }
@@ -2492,8 +2492,8 @@ var yyR1 = [...]int{
 	175, 175, 175, 175, 175, 164, 164, 200, 200, 173,
 	173, 173, 170, 170, 170, 170, 170, 170, 170, 170,
 	163, 163, 172, 172, 171, 171, 158, 158, 158, 158,
-	158, 159, 160, 160, 160, 160, 157, 196, 196, 196,
-	197, 197, 161, 161, 162, 162, 167, 167, 167, 168,
+	158, 159, 160, 160, 160, 160, 157, 197, 197, 197,
+	196, 196, 161, 161, 162, 162, 167, 167, 167, 168,
 	168, 168, 169, 169, 169, 12, 12, 12, 12, 12,
 	12, 12, 12, 12, 12, 12, 12, 186, 186, 186,
 	186, 186, 186, 186, 186, 186, 186, 186, 210, 210,
@@ -2713,7 +2713,7 @@ var yyChk = [...]int{
 	15, 45, 133, 89, 115, 279, 43, 174, 118, 6,
 	285, 29, 136, 41, 119, 249, 77, 122, 67, 5,
 	134, 9, 48, 51, 276, 277, 278, 32, 76, 12,
-	69, -166, -154, 55, -196, 307, 308, 121, -117, -111,
+	69, -166, -154, 55, -197, 307, 308, 121, -117, -111,
 	124, -111, -117, -117, -111, 279, 119, -51, -51, -110,
 	124, 55, -110, -110, -110, -51, 109, -51, 55, 29,
 	271, 55, 149, 119, 150, 121, -129, -207, -118, -129,
@@ -2776,9 +2776,9 @@ var yyChk = [...]int{
 	-208, -59, 29, 32, -2, -207, -207, -55, 53, 12,
 	80, -44, -43, 50, 51, -45, 50, -43, 40, 40,
 	120, 120, 120, -92, -117, -55, -39, -55, -100, -101,
-	266, 263, 269, 55, 53, -169, 80, 52, -197, 50,
+	266, 263, 269, 55, 53, -169, 80, 52, -196, 50,
 	72, -161, -117, 135, -163, -163, 55, -163, 55, 55,
-	66, 19, -117, 9, 135, 135, -197, 57, -123, -194,
+	66, 19, -117, 9, 135, 135, -196, 57, -123, -194,
 	298, 16, 52, -199, 52, 57, 58, 59, 66, -144,
 	65, -57, 237, 270, 273, 272, 238, 315, -148, 245,
 	58, -145, -145, -143, -145, -145, -145, -146, 29, -146,
@@ -2796,7 +2796,7 @@ var yyChk = [...]int{
 	-82, -98, -37, -37, -37, 52, -37, -207, -207, -207,
 	-208, 53, -82, -55, 263, 267, 268, -168, -169, -172,
 	-171, -117, 135, 10, 9, 19, 131, 125, 55, 55,
-	55, -196, 134, 309, -198, 312, -144, -207, 52, 22,
+	55, -197, 134, 309, -198, 312, -144, -207, 52, 22,
 	28, 58, -199, 52, -189, 311, -207, -143, 52, -143,
 	52, 52, 54, -146, -146, -145, -146, -146, -146, 55,
 	106, 54, 53, 54, 199, 199, 53, 54, 53, -51,
@@ -2808,7 +2808,7 @@ var yyChk = [...]int{
 	53, -208, -208, -208, 53, 109, -208, -86, -89, -117,
 	135, -89, -89, -89, -126, -117, -86, 54, 53, -143,
 	-143, -160, 155, 156, 29, 157, -160, 309, 135, 135,
-	-196, -197, -37, -89, 299, 53, 54, -199, 210, 200,
+	-197, -196, -37, -89, 299, 53, 54, -199, 210, 200,
 	239, 216, -208, 54, 54, 54, -146, -145, 57, -145,
 	246, 246, 58, 58, 52, 51, 50, -181, -169, 122,
 	20, 6, 8, 9, 10, 19, 22, -117, 52, 26,
@@ -2816,7 +2816,7 @@ var yyChk = [...]int{
 	-208, 57, 135, -72, 32, -2, -207, -117, -117, 53,
 	54, -208, -208, -208, -54, -174, -176, 291, -175, 51,
 	132, 64, 164, 165, 166, 167, 168, 169, 170, -171,
-	-85, -197, 50, 66, 158, -197, 50, -161, -117, -196,
+	-85, -196, 50, 66, 158, -196, 50, -161, -117, -197,
 	-207, -208, 54, 52, 58, 54, 208, -150, -146, -146,
 	54, 54, -172, -117, -51, -162, -117, 173, -203, -204,
 	-7, -9, -8, 52, -89, -207, 125, -81, 14, 16,
@@ -2831,7 +2831,7 @@ var yyChk = [...]int{
 	-208, 286, 54, 176, 301, 302, 144, 303, 157, 304,
 	305, -90, 310, -172, -172, -191, 291, -117, -37, -204,
 	54, -185, -208, 53, -117, 52, 37, 290, 295, -207,
-	54, 53, -197, -197, 54, 54, 291, 58, 16, 58,
+	54, 53, -196, -196, 54, 54, 291, 58, 16, 58,
 	58, 58, 58, 302, 144, 304, 16, -55, 52, 54,
 	54, 312, -183, -179, 32, -172, 37, -117, -175, 128,
 	-174, 58, 58, 306, -123, -174, -89, -55, -174, -37,
@@ -3409,29 +3409,29 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:349
+//line sqlparser/parser.y:350
 		{
 			setParseTree(yylex, yyDollar[1].statement)
 		}
 	case 2:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:354
+//line sqlparser/parser.y:355
 		{
 		}
 	case 3:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:355
+//line sqlparser/parser.y:356
 		{
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:359
+//line sqlparser/parser.y:360
 		{
 			yyVAL.statement = yyDollar[1].selStmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:382
+//line sqlparser/parser.y:383
 		{
 			sel := yyDollar[1].selStmt.(*Select)
 			sel.OrderBy = yyDollar[2].orderBy
@@ -3441,55 +3441,55 @@ yydefault:
 		}
 	case 23:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:390
+//line sqlparser/parser.y:391
 		{
 			yyVAL.selStmt = &Union{Type: yyDollar[2].str, Left: yyDollar[1].selStmt, Right: yyDollar[3].selStmt, OrderBy: yyDollar[4].orderBy, Limit: yyDollar[5].limit, Lock: yyDollar[6].str}
 		}
 	case 24:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:394
+//line sqlparser/parser.y:395
 		{
 			yyVAL.selStmt = &Select{Comments: Comments(yyDollar[2].bytes2), Cache: yyDollar[3].str, SelectExprs: SelectExprs{Nextval{Expr: yyDollar[5].expr}}, From: TableExprs{&AliasedTableExpr{Expr: yyDollar[7].tableName}}}
 		}
 	case 25:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:400
+//line sqlparser/parser.y:401
 		{
 			yyVAL.statement = &Stream{Comments: Comments(yyDollar[2].bytes2), SelectExpr: yyDollar[3].selectExpr, Table: yyDollar[5].tableName}
 		}
 	case 26:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:407
+//line sqlparser/parser.y:408
 		{
 			yyVAL.selStmt = &Select{Comments: Comments(yyDollar[2].bytes2), Cache: yyDollar[3].str, Distinct: yyDollar[4].str, Hints: yyDollar[5].str, SelectExprs: yyDollar[6].selectExprs, From: yyDollar[7].tableExprs, Where: NewWhere(WhereStr, yyDollar[8].expr), GroupBy: GroupBy(yyDollar[9].exprs), Having: NewWhere(HavingStr, yyDollar[10].expr)}
 		}
 	case 27:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:413
+//line sqlparser/parser.y:414
 		{
 			yyVAL.selStmt = yyDollar[1].selStmt
 		}
 	case 28:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:417
+//line sqlparser/parser.y:418
 		{
 			yyVAL.selStmt = &ParenSelect{Select: yyDollar[2].selStmt}
 		}
 	case 29:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:423
+//line sqlparser/parser.y:424
 		{
 			yyVAL.selStmt = yyDollar[1].selStmt
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:427
+//line sqlparser/parser.y:428
 		{
 			yyVAL.selStmt = &ParenSelect{Select: yyDollar[2].selStmt}
 		}
 	case 31:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:434
+//line sqlparser/parser.y:435
 		{
 			// insert_data returns a *Insert pre-filled with Columns & Values
 			ins := yyDollar[6].ins
@@ -3503,7 +3503,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:446
+//line sqlparser/parser.y:447
 		{
 			cols := make(Columns, 0, len(yyDollar[7].updateExprs))
 			vals := make(ValTuple, 0, len(yyDollar[8].updateExprs))
@@ -3515,174 +3515,174 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:458
+//line sqlparser/parser.y:459
 		{
 			yyVAL.str = InsertStr
 		}
 	case 34:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:462
+//line sqlparser/parser.y:463
 		{
 			yyVAL.str = ReplaceStr
 		}
 	case 35:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:468
+//line sqlparser/parser.y:469
 		{
 			yyVAL.statement = &Update{Comments: Comments(yyDollar[2].bytes2), TableExprs: yyDollar[3].tableExprs, Exprs: yyDollar[5].updateExprs, Where: NewWhere(WhereStr, yyDollar[6].expr), OrderBy: yyDollar[7].orderBy, Limit: yyDollar[8].limit}
 		}
 	case 36:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:474
+//line sqlparser/parser.y:475
 		{
 			yyVAL.statement = &Delete{Comments: Comments(yyDollar[2].bytes2), TableExprs: TableExprs{&AliasedTableExpr{Expr: yyDollar[4].tableName}}, Partitions: yyDollar[5].partitions, Where: NewWhere(WhereStr, yyDollar[6].expr), OrderBy: yyDollar[7].orderBy, Limit: yyDollar[8].limit}
 		}
 	case 37:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:478
+//line sqlparser/parser.y:479
 		{
 			yyVAL.statement = &Delete{Comments: Comments(yyDollar[2].bytes2), Targets: yyDollar[4].tableNames, TableExprs: yyDollar[6].tableExprs, Where: NewWhere(WhereStr, yyDollar[7].expr)}
 		}
 	case 38:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:482
+//line sqlparser/parser.y:483
 		{
 			yyVAL.statement = &Delete{Comments: Comments(yyDollar[2].bytes2), Targets: yyDollar[3].tableNames, TableExprs: yyDollar[5].tableExprs, Where: NewWhere(WhereStr, yyDollar[6].expr)}
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:487
+//line sqlparser/parser.y:488
 		{
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:488
+//line sqlparser/parser.y:489
 		{
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:492
+//line sqlparser/parser.y:493
 		{
 			yyVAL.tableNames = TableNames{yyDollar[1].tableName}
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:496
+//line sqlparser/parser.y:497
 		{
 			yyVAL.tableNames = append(yyVAL.tableNames, yyDollar[3].tableName)
 		}
 	case 43:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:501
+//line sqlparser/parser.y:502
 		{
 			yyVAL.partitions = nil
 		}
 	case 44:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:505
+//line sqlparser/parser.y:506
 		{
 			yyVAL.partitions = yyDollar[3].partitions
 		}
 	case 45:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:511
+//line sqlparser/parser.y:512
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Exprs: yyDollar[3].setExprs}
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:515
+//line sqlparser/parser.y:516
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Scope: yyDollar[3].str, Exprs: yyDollar[4].setExprs}
 		}
 	case 47:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:519
+//line sqlparser/parser.y:520
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Scope: yyDollar[3].str, Exprs: yyDollar[5].setExprs}
 		}
 	case 48:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:523
+//line sqlparser/parser.y:524
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Exprs: yyDollar[4].setExprs}
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:529
+//line sqlparser/parser.y:530
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
 	case 50:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:533
+//line sqlparser/parser.y:534
 		{
 			yyVAL.setExprs = append(yyVAL.setExprs, yyDollar[3].setExpr)
 		}
 	case 51:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:539
+//line sqlparser/parser.y:540
 		{
 			yyVAL.setExpr = yyDollar[3].setExpr
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:543
+//line sqlparser/parser.y:544
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_read_only"), Expr: NewIntVal([]byte("0"))}
 		}
 	case 53:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:547
+//line sqlparser/parser.y:548
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_read_only"), Expr: NewIntVal([]byte("1"))}
 		}
 	case 54:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:553
+//line sqlparser/parser.y:554
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("repeatable read"))}
 		}
 	case 55:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:557
+//line sqlparser/parser.y:558
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("read committed"))}
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:561
+//line sqlparser/parser.y:562
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("read uncommitted"))}
 		}
 	case 57:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:565
+//line sqlparser/parser.y:566
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("serializable"))}
 		}
 	case 58:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:571
+//line sqlparser/parser.y:572
 		{
 			yyVAL.str = SessionStr
 		}
 	case 59:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:575
+//line sqlparser/parser.y:576
 		{
 			yyVAL.str = GlobalStr
 		}
 	case 60:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:581
+//line sqlparser/parser.y:582
 		{
 			yyDollar[1].ddl.TableSpec = yyDollar[2].TableSpec
 			yyVAL.statement = yyDollar[1].ddl
 		}
 	case 61:
 		yyDollar = yyS[yypt-14 : yypt+1]
-//line sqlparser/parser.y:586
+//line sqlparser/parser.y:587
 		{
 			yyVAL.statement = &DDL{
 				Action:  CreateIndexStr,
@@ -3692,7 +3692,7 @@ yydefault:
 					Name:      yyDollar[5].colIdent,
 					Type:      NewColIdent(""),
 					Unique:    bool(yyDollar[2].boolVal),
-					Clustered: bool(yyDollar[3].boolVal),
+					Clustered: yyDollar[3].str == "clustered", // NONCLUSTERED by default
 					Included:  yyDollar[11].columns,
 					Where:     NewWhere(WhereStr, yyDollar[12].expr),
 					Options:   yyDollar[13].indexOptions,
@@ -3703,7 +3703,7 @@ yydefault:
 		}
 	case 62:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:606
+//line sqlparser/parser.y:607
 		{
 			yyVAL.statement = &DDL{
 				Action:  CreateIndexStr,
@@ -3720,7 +3720,7 @@ yydefault:
 		}
 	case 63:
 		yyDollar = yyS[yypt-14 : yypt+1]
-//line sqlparser/parser.y:622
+//line sqlparser/parser.y:623
 		{
 			yyVAL.statement = &DDL{
 				Action:  CreateIndexStr,
@@ -3737,7 +3737,7 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:637
+//line sqlparser/parser.y:638
 		{
 			yyVAL.statement = &DDL{Action: CreateViewStr, View: &View{
 				Action:     CreateViewStr,
@@ -3747,7 +3747,7 @@ yydefault:
 		}
 	case 65:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:645
+//line sqlparser/parser.y:646
 		{
 			yyVAL.statement = &DDL{Action: CreateVindexStr, VindexSpec: &VindexSpec{
 				Name:   yyDollar[3].colIdent,
@@ -3757,19 +3757,19 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:653
+//line sqlparser/parser.y:654
 		{
 			yyVAL.statement = &DBDDL{Action: CreateStr, DBName: string(yyDollar[4].bytes)}
 		}
 	case 67:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:657
+//line sqlparser/parser.y:658
 		{
 			yyVAL.statement = &DBDDL{Action: CreateStr, DBName: string(yyDollar[4].bytes)}
 		}
 	case 68:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:661
+//line sqlparser/parser.y:662
 		{
 			yyVAL.statement = &DDL{Action: CreatePolicyStr, Table: yyDollar[5].tableName, Policy: &Policy{
 				Name:       yyDollar[3].colIdent,
@@ -3782,7 +3782,7 @@ yydefault:
 		}
 	case 69:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:672
+//line sqlparser/parser.y:673
 		{
 			yyVAL.statement = &DDL{Action: CreateTriggerStr, Trigger: &Trigger{
 				Name:      yyDollar[3].colIdent,
@@ -3794,7 +3794,7 @@ yydefault:
 		}
 	case 70:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:682
+//line sqlparser/parser.y:683
 		{
 			yyVAL.statement = &DDL{Action: CreateTriggerStr, Trigger: &Trigger{
 				Name:      yyDollar[3].colIdent,
@@ -3806,258 +3806,258 @@ yydefault:
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:694
+//line sqlparser/parser.y:695
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 72:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:698
+//line sqlparser/parser.y:699
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:704
+//line sqlparser/parser.y:705
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 74:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:708
+//line sqlparser/parser.y:709
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 75:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:712
+//line sqlparser/parser.y:713
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 76:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:718
+//line sqlparser/parser.y:719
 		{
 			yyVAL.triggerBody = []Statement{yyDollar[1].statement}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:722
+//line sqlparser/parser.y:723
 		{
 			yyVAL.triggerBody = append(yyVAL.triggerBody, yyDollar[2].statement)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:728
+//line sqlparser/parser.y:729
 		{
 			yyVAL.statement = yyDollar[1].statement
 		}
 	case 81:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:735
+//line sqlparser/parser.y:736
 		{
 			yyVAL.bytes = nil
 		}
 	case 82:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:739
+//line sqlparser/parser.y:740
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 83:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:743
+//line sqlparser/parser.y:744
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:748
+//line sqlparser/parser.y:749
 		{
 			yyVAL.bytes = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:752
+//line sqlparser/parser.y:753
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 86:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:756
+//line sqlparser/parser.y:757
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 87:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:760
+//line sqlparser/parser.y:761
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 88:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:764
+//line sqlparser/parser.y:765
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 89:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:768
+//line sqlparser/parser.y:769
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 90:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:773
+//line sqlparser/parser.y:774
 		{
 			yyVAL.expr = nil
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:777
+//line sqlparser/parser.y:778
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
 	case 92:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:782
+//line sqlparser/parser.y:783
 		{
 			yyVAL.expr = nil
 		}
 	case 93:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:786
+//line sqlparser/parser.y:787
 		{
 			yyVAL.expr = yyDollar[3].expr
 		}
 	case 94:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:791
+//line sqlparser/parser.y:792
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:795
+//line sqlparser/parser.y:796
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 96:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:800
+//line sqlparser/parser.y:801
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
 	case 97:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:804
+//line sqlparser/parser.y:805
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
 	case 98:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:810
+//line sqlparser/parser.y:811
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 99:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:815
+//line sqlparser/parser.y:816
 		{
 			var v []VindexParam
 			yyVAL.vindexParams = v
 		}
 	case 100:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:820
+//line sqlparser/parser.y:821
 		{
 			yyVAL.vindexParams = yyDollar[2].vindexParams
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:826
+//line sqlparser/parser.y:827
 		{
 			yyVAL.vindexParams = make([]VindexParam, 0, 4)
 			yyVAL.vindexParams = append(yyVAL.vindexParams, yyDollar[1].vindexParam)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:831
+//line sqlparser/parser.y:832
 		{
 			yyVAL.vindexParams = append(yyVAL.vindexParams, yyDollar[3].vindexParam)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:837
+//line sqlparser/parser.y:838
 		{
 			yyVAL.vindexParam = VindexParam{Key: yyDollar[1].colIdent, Val: yyDollar[3].str}
 		}
 	case 104:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:842
+//line sqlparser/parser.y:843
 		{
 			yyVAL.bytes = nil
 		}
 	case 105:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:846
+//line sqlparser/parser.y:847
 		{
 			yyVAL.bytes = nil
 		}
 	case 106:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:852
+//line sqlparser/parser.y:853
 		{
 			yyVAL.ddl = &DDL{Action: CreateStr, NewName: yyDollar[4].tableName}
 			setDDL(yylex, yyVAL.ddl)
 		}
 	case 107:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:859
+//line sqlparser/parser.y:860
 		{
 			yyVAL.TableSpec = yyDollar[2].TableSpec
 			yyVAL.TableSpec.Options = yyDollar[4].str
 		}
 	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:866
+//line sqlparser/parser.y:867
 		{
 			yyVAL.TableSpec = &TableSpec{}
 			yyVAL.TableSpec.AddColumn(yyDollar[1].columnDefinition)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:871
+//line sqlparser/parser.y:872
 		{
 			yyVAL.TableSpec.AddColumn(yyDollar[3].columnDefinition)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:875
+//line sqlparser/parser.y:876
 		{
 			yyVAL.TableSpec.AddIndex(yyDollar[3].indexDefinition)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:879
+//line sqlparser/parser.y:880
 		{
 			yyVAL.TableSpec.AddForeignKey(yyDollar[3].foreignKeyDefinition)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:883
+//line sqlparser/parser.y:884
 		{
 			yyVAL.TableSpec.AddIndex(yyDollar[3].indexDefinition)
 		}
 	case 113:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:889
+//line sqlparser/parser.y:890
 		{
 			yyVAL.columnDefinition = &ColumnDefinition{Name: NewColIdent(string(yyDollar[1].bytes)), Type: yyDollar[2].columnType}
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:894
+//line sqlparser/parser.y:895
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 			yyVAL.columnType.Unsigned = yyDollar[2].boolVal
@@ -4065,7 +4065,7 @@ yydefault:
 		}
 	case 119:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:905
+//line sqlparser/parser.y:906
 		{
 			yyDollar[1].columnType.NotNull = nil
 			yyDollar[1].columnType.Default = nil
@@ -4079,84 +4079,84 @@ yydefault:
 		}
 	case 120:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:917
+//line sqlparser/parser.y:918
 		{
 			yyDollar[1].columnType.NotNull = NewBoolVal(false)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 121:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:922
+//line sqlparser/parser.y:923
 		{
 			yyDollar[1].columnType.NotNull = NewBoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 122:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:927
+//line sqlparser/parser.y:928
 		{
 			yyDollar[1].columnType.Default = &DefaultDefinition{Value: yyDollar[2].optVal}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:932
+//line sqlparser/parser.y:933
 		{
 			yyDollar[1].columnType.Default = &DefaultDefinition{ConstraintName: yyDollar[3].colIdent, Value: yyDollar[4].optVal}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 124:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:937
+//line sqlparser/parser.y:938
 		{
 			yyDollar[1].columnType.OnUpdate = yyDollar[4].optVal
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 125:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:942
+//line sqlparser/parser.y:943
 		{
 			yyDollar[1].columnType.Autoincrement = BoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 126:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:947
+//line sqlparser/parser.y:948
 		{
 			yyDollar[1].columnType.Autoincrement = BoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 127:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:952
+//line sqlparser/parser.y:953
 		{
 			yyDollar[1].columnType.KeyOpt = colKeyPrimary
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 128:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:957
+//line sqlparser/parser.y:958
 		{
 			yyDollar[1].columnType.KeyOpt = colKey
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 129:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:962
+//line sqlparser/parser.y:963
 		{
 			yyDollar[1].columnType.KeyOpt = colKeyUniqueKey
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 130:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:967
+//line sqlparser/parser.y:968
 		{
 			yyDollar[1].columnType.KeyOpt = colKeyUnique
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 131:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:972
+//line sqlparser/parser.y:973
 		{
 			yyDollar[1].columnType.Check = &CheckDefinition{Where: *NewWhere(WhereStr, yyDollar[5].expr), NotForReplication: bool(yyDollar[3].boolVal)}
 			yyDollar[1].columnType.CheckNoInherit = yyDollar[7].boolVal
@@ -4164,28 +4164,28 @@ yydefault:
 		}
 	case 132:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:978
+//line sqlparser/parser.y:979
 		{
 			yyDollar[1].columnType.Check = &CheckDefinition{Where: *NewWhere(WhereStr, yyDollar[7].expr), ConstraintName: yyDollar[3].colIdent, NotForReplication: bool(yyDollar[5].boolVal)}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 133:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:983
+//line sqlparser/parser.y:984
 		{
 			yyDollar[1].columnType.Comment = NewStrVal(yyDollar[3].bytes)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 134:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:988
+//line sqlparser/parser.y:989
 		{
 			yyDollar[1].columnType.References = yyDollar[3].tableIdent.v
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 135:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:993
+//line sqlparser/parser.y:994
 		{
 			yyDollar[1].columnType.References = yyDollar[3].tableIdent.v
 			yyDollar[1].columnType.ReferenceNames = yyDollar[5].columns
@@ -4193,7 +4193,7 @@ yydefault:
 		}
 	case 136:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:999
+//line sqlparser/parser.y:1000
 		{
 			yyDollar[1].columnType.Identity = &IdentityOpt{Behavior: yyDollar[3].str}
 			yyDollar[1].columnType.NotNull = NewBoolVal(true)
@@ -4201,7 +4201,7 @@ yydefault:
 		}
 	case 137:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1005
+//line sqlparser/parser.y:1006
 		{
 			yyDollar[1].columnType.Identity = &IdentityOpt{Behavior: yyDollar[3].str, Sequence: yyDollar[7].sequence}
 			yyDollar[1].columnType.NotNull = NewBoolVal(true)
@@ -4209,323 +4209,323 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1011
+//line sqlparser/parser.y:1012
 		{
 			yyDollar[1].columnType.Identity = &IdentityOpt{Sequence: &Sequence{StartWith: NewIntVal(yyDollar[4].bytes), IncrementBy: NewIntVal(yyDollar[6].bytes)}, NotForReplication: false}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 139:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1017
+//line sqlparser/parser.y:1018
 		{
 			yyDollar[1].columnType.Identity.NotForReplication = true
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 140:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1024
+//line sqlparser/parser.y:1025
 		{
 			yyVAL.optVal = yyDollar[2].optVal
 		}
 	case 141:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1028
+//line sqlparser/parser.y:1029
 		{
 			yyVAL.optVal = yyDollar[3].optVal
 		}
 	case 142:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1032
+//line sqlparser/parser.y:1033
 		{
 			yyVAL.optVal = yyDollar[4].optVal
 		}
 	case 143:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1038
+//line sqlparser/parser.y:1039
 		{
 			yyVAL.optVal = NewStrVal(yyDollar[1].bytes)
 		}
 	case 144:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1042
+//line sqlparser/parser.y:1043
 		{
 			yyVAL.optVal = NewIntVal(yyDollar[1].bytes)
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1046
+//line sqlparser/parser.y:1047
 		{
 			yyVAL.optVal = NewFloatVal(yyDollar[1].bytes)
 		}
 	case 146:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1050
+//line sqlparser/parser.y:1051
 		{
 			yyVAL.optVal = NewValArg(yyDollar[1].bytes)
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1054
+//line sqlparser/parser.y:1055
 		{
 			yyVAL.optVal = yyDollar[1].optVal
 		}
 	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1058
+//line sqlparser/parser.y:1059
 		{
 			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
 		}
 	case 149:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1062
+//line sqlparser/parser.y:1063
 		{
 			yyVAL.optVal = NewBoolSQLVal(bool(yyDollar[1].boolVal))
 		}
 	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1066
+//line sqlparser/parser.y:1067
 		{
 			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1072
+//line sqlparser/parser.y:1073
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 152:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1076
+//line sqlparser/parser.y:1077
 		{
 			yyVAL.str = string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)
 		}
 	case 153:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1081
+//line sqlparser/parser.y:1082
 		{
 			yyVAL.sequence = &Sequence{}
 		}
 	case 154:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1085
+//line sqlparser/parser.y:1086
 		{
 			yyDollar[1].sequence.StartWith = NewIntVal(yyDollar[4].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1090
+//line sqlparser/parser.y:1091
 		{
 			yyDollar[1].sequence.StartWith = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 156:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1095
+//line sqlparser/parser.y:1096
 		{
 			yyDollar[1].sequence.IncrementBy = NewIntVal(yyDollar[4].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1100
+//line sqlparser/parser.y:1101
 		{
 			yyDollar[1].sequence.IncrementBy = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1105
+//line sqlparser/parser.y:1106
 		{
 			yyDollar[1].sequence.MinValue = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 159:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1110
+//line sqlparser/parser.y:1111
 		{
 			yyDollar[1].sequence.MaxValue = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 160:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1115
+//line sqlparser/parser.y:1116
 		{
 			yyDollar[1].sequence.Cache = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 161:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1120
+//line sqlparser/parser.y:1121
 		{
 			yyDollar[1].sequence.NoMinValue = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 162:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1125
+//line sqlparser/parser.y:1126
 		{
 			yyDollar[1].sequence.NoMaxValue = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 163:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1130
+//line sqlparser/parser.y:1131
 		{
 			yyDollar[1].sequence.NoCycle = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 164:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1135
+//line sqlparser/parser.y:1136
 		{
 			yyDollar[1].sequence.Cycle = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 165:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1140
+//line sqlparser/parser.y:1141
 		{
 			yyDollar[1].sequence.OwnedBy = "NONE"
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 166:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1145
+//line sqlparser/parser.y:1146
 		{
 			yyDollar[1].sequence.OwnedBy = string(yyDollar[4].tableIdent.v) + "." + string(yyDollar[6].colIdent.val)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
 	case 167:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1152
+//line sqlparser/parser.y:1153
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, yyDollar[2].optVal)
 		}
 	case 168:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1156
+//line sqlparser/parser.y:1157
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
 	case 169:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1160
+//line sqlparser/parser.y:1161
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, yyDollar[2].optVal)
 		}
 	case 170:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1164
+//line sqlparser/parser.y:1165
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
 	case 171:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1168
+//line sqlparser/parser.y:1169
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
 	case 172:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1172
+//line sqlparser/parser.y:1173
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
 	case 173:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1177
+//line sqlparser/parser.y:1178
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 174:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1181
+//line sqlparser/parser.y:1182
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 175:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1186
+//line sqlparser/parser.y:1187
 		{
 			yyVAL.bytes = nil
 		}
 	case 180:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1196
+//line sqlparser/parser.y:1197
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 			yyVAL.columnType.Length = yyDollar[2].optVal
 		}
 	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1201
+//line sqlparser/parser.y:1202
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1207
+//line sqlparser/parser.y:1208
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 183:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1211
+//line sqlparser/parser.y:1212
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 184:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1215
+//line sqlparser/parser.y:1216
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 185:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1219
+//line sqlparser/parser.y:1220
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 186:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1223
+//line sqlparser/parser.y:1224
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1227
+//line sqlparser/parser.y:1228
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 188:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1231
+//line sqlparser/parser.y:1232
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1235
+//line sqlparser/parser.y:1236
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1239
+//line sqlparser/parser.y:1240
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1243
+//line sqlparser/parser.y:1244
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 192:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1249
+//line sqlparser/parser.y:1250
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
@@ -4533,7 +4533,7 @@ yydefault:
 		}
 	case 193:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1255
+//line sqlparser/parser.y:1256
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 			yyVAL.columnType.Length = yyDollar[3].LengthScaleOption.Length
@@ -4541,7 +4541,7 @@ yydefault:
 		}
 	case 194:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1261
+//line sqlparser/parser.y:1262
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
@@ -4549,7 +4549,7 @@ yydefault:
 		}
 	case 195:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1267
+//line sqlparser/parser.y:1268
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
@@ -4557,7 +4557,7 @@ yydefault:
 		}
 	case 196:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1273
+//line sqlparser/parser.y:1274
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
@@ -4565,7 +4565,7 @@ yydefault:
 		}
 	case 197:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1279
+//line sqlparser/parser.y:1280
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
@@ -4573,296 +4573,296 @@ yydefault:
 		}
 	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1285
+//line sqlparser/parser.y:1286
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1289
+//line sqlparser/parser.y:1290
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1295
+//line sqlparser/parser.y:1296
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 201:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1299
+//line sqlparser/parser.y:1300
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
 	case 202:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1303
+//line sqlparser/parser.y:1304
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
 	case 203:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1307
+//line sqlparser/parser.y:1308
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1311
+//line sqlparser/parser.y:1312
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 205:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1315
+//line sqlparser/parser.y:1316
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1319
+//line sqlparser/parser.y:1320
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1323
+//line sqlparser/parser.y:1324
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1329
+//line sqlparser/parser.y:1330
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1333
+//line sqlparser/parser.y:1334
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 210:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1339
+//line sqlparser/parser.y:1340
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 211:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1343
+//line sqlparser/parser.y:1344
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 212:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1347
+//line sqlparser/parser.y:1348
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 213:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1351
+//line sqlparser/parser.y:1352
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 214:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1355
+//line sqlparser/parser.y:1356
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1359
+//line sqlparser/parser.y:1360
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 216:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1363
+//line sqlparser/parser.y:1364
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Length: yyDollar[3].optVal, Charset: yyDollar[4].str, Collate: yyDollar[5].str}
 		}
 	case 217:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1367
+//line sqlparser/parser.y:1368
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 218:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1371
+//line sqlparser/parser.y:1372
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 219:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1375
+//line sqlparser/parser.y:1376
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 220:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1379
+//line sqlparser/parser.y:1380
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 221:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1383
+//line sqlparser/parser.y:1384
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 222:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1387
+//line sqlparser/parser.y:1388
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 223:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1391
+//line sqlparser/parser.y:1392
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 224:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1395
+//line sqlparser/parser.y:1396
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1399
+//line sqlparser/parser.y:1400
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1403
+//line sqlparser/parser.y:1404
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 227:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1407
+//line sqlparser/parser.y:1408
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1411
+//line sqlparser/parser.y:1412
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 229:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1415
+//line sqlparser/parser.y:1416
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 230:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1419
+//line sqlparser/parser.y:1420
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 231:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1423
+//line sqlparser/parser.y:1424
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
 	case 232:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1428
+//line sqlparser/parser.y:1429
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1434
+//line sqlparser/parser.y:1435
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1438
+//line sqlparser/parser.y:1439
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1442
+//line sqlparser/parser.y:1443
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1446
+//line sqlparser/parser.y:1447
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1450
+//line sqlparser/parser.y:1451
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1454
+//line sqlparser/parser.y:1455
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1458
+//line sqlparser/parser.y:1459
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 240:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1462
+//line sqlparser/parser.y:1463
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 241:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1468
+//line sqlparser/parser.y:1469
 		{
 			yyVAL.strs = make([]string, 0, 4)
 			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
 		}
 	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1473
+//line sqlparser/parser.y:1474
 		{
 			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
 		}
 	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1478
+//line sqlparser/parser.y:1479
 		{
 			yyVAL.optVal = nil
 		}
 	case 244:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1482
+//line sqlparser/parser.y:1483
 		{
 			yyVAL.optVal = NewIntVal(yyDollar[2].bytes)
 		}
 	case 245:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1487
+//line sqlparser/parser.y:1488
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
 	case 246:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1491
+//line sqlparser/parser.y:1492
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
@@ -4871,13 +4871,13 @@ yydefault:
 		}
 	case 247:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1499
+//line sqlparser/parser.y:1500
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
 	case 248:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1503
+//line sqlparser/parser.y:1504
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
@@ -4885,7 +4885,7 @@ yydefault:
 		}
 	case 249:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1509
+//line sqlparser/parser.y:1510
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
@@ -4894,351 +4894,351 @@ yydefault:
 		}
 	case 250:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1517
+//line sqlparser/parser.y:1518
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 251:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1521
+//line sqlparser/parser.y:1522
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 252:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1525
+//line sqlparser/parser.y:1526
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 253:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1530
+//line sqlparser/parser.y:1531
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 254:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1534
+//line sqlparser/parser.y:1535
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 255:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1539
+//line sqlparser/parser.y:1540
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 256:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1543
+//line sqlparser/parser.y:1544
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 257:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1548
+//line sqlparser/parser.y:1549
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 258:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1552
+//line sqlparser/parser.y:1553
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 259:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1556
+//line sqlparser/parser.y:1557
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 260:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1561
+//line sqlparser/parser.y:1562
 		{
 			yyVAL.str = ""
 		}
 	case 261:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1565
+//line sqlparser/parser.y:1566
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
 	case 262:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1569
+//line sqlparser/parser.y:1570
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
 	case 263:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1574
+//line sqlparser/parser.y:1575
 		{
 			yyVAL.str = ""
 		}
 	case 264:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1578
+//line sqlparser/parser.y:1579
 		{
 			yyVAL.str = string(yyDollar[1].bytes) // Set pseudo collation "binary" for BINARY attribute (deprecated in future MySQL versions)
 		}
 	case 265:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1582
+//line sqlparser/parser.y:1583
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
 	case 266:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1588
+//line sqlparser/parser.y:1589
 		{
 			yyVAL.indexDefinition = &IndexDefinition{Info: yyDollar[1].indexInfo, Columns: yyDollar[3].indexColumns, Options: yyDollar[5].indexOptions, Partition: yyDollar[6].indexPartition}
 		}
 	case 267:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1593
+//line sqlparser/parser.y:1594
 		{
 			yyVAL.indexOptions = []*IndexOption{}
 		}
 	case 268:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1597
+//line sqlparser/parser.y:1598
 		{
 			yyVAL.indexOptions = yyDollar[1].indexOptions
 		}
 	case 269:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1601
+//line sqlparser/parser.y:1602
 		{
 			yyVAL.indexOptions = yyDollar[3].indexOptions
 		}
 	case 270:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1607
+//line sqlparser/parser.y:1608
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
 	case 271:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1611
+//line sqlparser/parser.y:1612
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[2].indexOption)
 		}
 	case 272:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1617
+//line sqlparser/parser.y:1618
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
 	case 273:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1621
+//line sqlparser/parser.y:1622
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[3].indexOption)
 		}
 	case 274:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1627
+//line sqlparser/parser.y:1628
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Using: string(yyDollar[2].bytes)}
 		}
 	case 275:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1631
+//line sqlparser/parser.y:1632
 		{
 			// should not be string
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
 	case 276:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1636
+//line sqlparser/parser.y:1637
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewStrVal(yyDollar[2].bytes)}
 		}
 	case 277:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1640
+//line sqlparser/parser.y:1641
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[2].bytes), Value: NewStrVal([]byte(yyDollar[3].colIdent.String()))}
 		}
 	case 278:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1644
+//line sqlparser/parser.y:1645
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 279:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1648
+//line sqlparser/parser.y:1649
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
 	case 280:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1652
+//line sqlparser/parser.y:1653
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 281:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1656
+//line sqlparser/parser.y:1657
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 282:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1660
+//line sqlparser/parser.y:1661
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 283:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1664
+//line sqlparser/parser.y:1665
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 284:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1668
+//line sqlparser/parser.y:1669
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 285:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1674
+//line sqlparser/parser.y:1675
 		{
 			yyVAL.str = ""
 		}
 	case 286:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1678
+//line sqlparser/parser.y:1679
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 287:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1684
+//line sqlparser/parser.y:1685
 		{
 			yyVAL.optVal = NewBoolSQLVal(true)
 		}
 	case 288:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1688
+//line sqlparser/parser.y:1689
 		{
 			yyVAL.optVal = NewBoolSQLVal(false)
 		}
 	case 289:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1694
+//line sqlparser/parser.y:1695
 		{
 			yyVAL.indexPartition = nil
 		}
 	case 290:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1698
+//line sqlparser/parser.y:1699
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String()}
 		}
 	case 291:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1702
+//line sqlparser/parser.y:1703
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String(), Column: yyDollar[4].colIdent.String()}
 		}
 	case 292:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1708
+//line sqlparser/parser.y:1709
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
 		}
 	case 293:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1712
+//line sqlparser/parser.y:1713
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Spatial: true, Unique: false}
 		}
 	case 294:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1716
+//line sqlparser/parser.y:1717
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Fulltext: true}
 		}
 	case 295:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1720
+//line sqlparser/parser.y:1721
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Fulltext: true}
 		}
 	case 296:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1724
+//line sqlparser/parser.y:1725
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Unique: true}
 		}
 	case 297:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1728
+//line sqlparser/parser.y:1729
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true}
 		}
 	case 298:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1732
+//line sqlparser/parser.y:1733
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: yyDollar[3].boolVal}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: yyDollar[3].str == "clustered"}
 		}
 	case 299:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1736
+//line sqlparser/parser.y:1737
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: yyDollar[4].boolVal}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: yyDollar[4].str == "clustered"}
 		}
 	case 300:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1742
+//line sqlparser/parser.y:1743
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 301:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1746
+//line sqlparser/parser.y:1747
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 302:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1752
+//line sqlparser/parser.y:1753
 		{
 			yyVAL.indexColumns = []IndexColumn{yyDollar[1].indexColumn}
 		}
 	case 303:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1756
+//line sqlparser/parser.y:1757
 		{
 			yyVAL.indexColumns = append(yyVAL.indexColumns, yyDollar[3].indexColumn)
 		}
 	case 304:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1762
+//line sqlparser/parser.y:1763
 		{
 			yyVAL.indexColumn = IndexColumn{Column: yyDollar[1].colIdent, Length: yyDollar[2].optVal, Direction: yyDollar[3].str}
 		}
 	case 305:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1767
+//line sqlparser/parser.y:1768
 		{
 			yyVAL.indexColumn = IndexColumn{Column: NewColIdent(string(yyDollar[1].bytes)), Length: yyDollar[2].optVal}
 		}
 	case 306:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1773
+//line sqlparser/parser.y:1774
 		{
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[2].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
 	case 307:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1778
+//line sqlparser/parser.y:1779
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
@@ -5247,7 +5247,7 @@ yydefault:
 		}
 	case 308:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1785
+//line sqlparser/parser.y:1786
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = NewColIdent("")
@@ -5256,7 +5256,7 @@ yydefault:
 		}
 	case 309:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1792
+//line sqlparser/parser.y:1793
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
@@ -5265,7 +5265,7 @@ yydefault:
 		}
 	case 310:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1799
+//line sqlparser/parser.y:1800
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[7].colIdent
@@ -5274,7 +5274,7 @@ yydefault:
 		}
 	case 311:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1808
+//line sqlparser/parser.y:1809
 		{
 			yyVAL.foreignKeyDefinition = &ForeignKeyDefinition{
 				ConstraintName:   yyDollar[2].colIdent,
@@ -5286,34 +5286,34 @@ yydefault:
 		}
 	case 312:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1820
+//line sqlparser/parser.y:1821
 		{
 			yyVAL.colIdent = NewColIdent("RESTRICT")
 		}
 	case 313:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1824
+//line sqlparser/parser.y:1825
 		{
 			yyVAL.colIdent = NewColIdent("CASCADE")
 		}
 	case 314:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1828
+//line sqlparser/parser.y:1829
 		{
 			yyVAL.colIdent = NewColIdent("SET NULL")
 		}
 	case 315:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1832
+//line sqlparser/parser.y:1833
 		{
 			yyVAL.colIdent = NewColIdent("NO ACTION")
 		}
 	case 316:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:1838
+//line sqlparser/parser.y:1839
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
-				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].boolVal},
+				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].str != "nonclustered"}, // CLUSTERED by default
 				Columns:   yyDollar[7].indexColumns,
 				Options:   yyDollar[9].indexOptions,
 				Partition: yyDollar[10].indexPartition,
@@ -5321,115 +5321,115 @@ yydefault:
 		}
 	case 317:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1849
+//line sqlparser/parser.y:1850
 		{
-			yyVAL.boolVal = BoolVal(true)
+			yyVAL.str = ""
 		}
 	case 318:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1853
+//line sqlparser/parser.y:1854
 		{
-			yyVAL.boolVal = BoolVal(true)
+			yyVAL.str = "clustered"
 		}
 	case 319:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1857
+//line sqlparser/parser.y:1858
 		{
-			yyVAL.boolVal = BoolVal(false)
+			yyVAL.str = "nonclustered"
 		}
 	case 320:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1863
+//line sqlparser/parser.y:1864
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 321:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1867
+//line sqlparser/parser.y:1868
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 322:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1872
+//line sqlparser/parser.y:1873
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
 	case 324:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1879
+//line sqlparser/parser.y:1880
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
 	case 325:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1883
+//line sqlparser/parser.y:1884
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
 	case 326:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1888
+//line sqlparser/parser.y:1889
 		{
 			yyVAL.str = ""
 		}
 	case 327:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1892
+//line sqlparser/parser.y:1893
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
 	case 328:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1896
+//line sqlparser/parser.y:1897
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
 	case 329:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1904
+//line sqlparser/parser.y:1905
 		{
 			yyVAL.str = yyDollar[1].str
 		}
 	case 330:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1908
+//line sqlparser/parser.y:1909
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
 	case 331:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1912
+//line sqlparser/parser.y:1913
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
 	case 332:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1918
+//line sqlparser/parser.y:1919
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
 	case 333:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1922
+//line sqlparser/parser.y:1923
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
 	case 334:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1926
+//line sqlparser/parser.y:1927
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 335:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1932
+//line sqlparser/parser.y:1933
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
 	case 336:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1936
+//line sqlparser/parser.y:1937
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5445,7 +5445,7 @@ yydefault:
 		}
 	case 337:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1950
+//line sqlparser/parser.y:1951
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5461,7 +5461,7 @@ yydefault:
 		}
 	case 338:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1964
+//line sqlparser/parser.y:1965
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5472,19 +5472,19 @@ yydefault:
 		}
 	case 339:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1973
+//line sqlparser/parser.y:1974
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
 	case 340:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1977
+//line sqlparser/parser.y:1978
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
 	case 341:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:1981
+//line sqlparser/parser.y:1982
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5499,7 +5499,7 @@ yydefault:
 		}
 	case 342:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1994
+//line sqlparser/parser.y:1995
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5511,69 +5511,69 @@ yydefault:
 		}
 	case 343:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2004
+//line sqlparser/parser.y:2005
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
 	case 344:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2009
+//line sqlparser/parser.y:2010
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
 	case 345:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2014
+//line sqlparser/parser.y:2015
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
 	case 346:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2018
+//line sqlparser/parser.y:2019
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
 	case 367:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2050
+//line sqlparser/parser.y:2051
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
 	case 368:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2056
+//line sqlparser/parser.y:2057
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
 	case 369:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2060
+//line sqlparser/parser.y:2061
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
 	case 370:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2066
+//line sqlparser/parser.y:2067
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
 	case 371:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2070
+//line sqlparser/parser.y:2071
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
 	case 372:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2076
+//line sqlparser/parser.y:2077
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
 	case 373:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2082
+//line sqlparser/parser.y:2083
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5583,14 +5583,14 @@ yydefault:
 		}
 	case 374:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2090
+//line sqlparser/parser.y:2091
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
 	case 375:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2095
+//line sqlparser/parser.y:2096
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5600,121 +5600,121 @@ yydefault:
 		}
 	case 376:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2103
+//line sqlparser/parser.y:2104
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
 	case 377:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2107
+//line sqlparser/parser.y:2108
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
 	case 378:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2113
+//line sqlparser/parser.y:2114
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
 	case 379:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2117
+//line sqlparser/parser.y:2118
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
 	case 380:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2122
+//line sqlparser/parser.y:2123
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
 	case 381:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2128
+//line sqlparser/parser.y:2129
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 382:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2132
+//line sqlparser/parser.y:2133
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 383:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2136
+//line sqlparser/parser.y:2137
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 384:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2141
+//line sqlparser/parser.y:2142
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 385:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2145
+//line sqlparser/parser.y:2146
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 386:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2149
+//line sqlparser/parser.y:2150
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 387:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2153
+//line sqlparser/parser.y:2154
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 388:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2157
+//line sqlparser/parser.y:2158
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 389:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2161
+//line sqlparser/parser.y:2162
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 390:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2165
+//line sqlparser/parser.y:2166
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 391:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2169
+//line sqlparser/parser.y:2170
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 392:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2173
+//line sqlparser/parser.y:2174
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 393:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2177
+//line sqlparser/parser.y:2178
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
 	case 394:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2181
+//line sqlparser/parser.y:2182
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 395:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2185
+//line sqlparser/parser.y:2186
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5726,602 +5726,602 @@ yydefault:
 		}
 	case 396:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2195
+//line sqlparser/parser.y:2196
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
 	case 397:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2199
+//line sqlparser/parser.y:2200
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 398:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2203
+//line sqlparser/parser.y:2204
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
 	case 399:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2207
+//line sqlparser/parser.y:2208
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 400:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2211
+//line sqlparser/parser.y:2212
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 401:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2215
+//line sqlparser/parser.y:2216
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 402:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2219
+//line sqlparser/parser.y:2220
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 403:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2229
+//line sqlparser/parser.y:2230
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 404:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2235
+//line sqlparser/parser.y:2236
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 405:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2239
+//line sqlparser/parser.y:2240
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 406:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2245
+//line sqlparser/parser.y:2246
 		{
 			yyVAL.str = ""
 		}
 	case 407:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2249
+//line sqlparser/parser.y:2250
 		{
 			yyVAL.str = "extended "
 		}
 	case 408:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2255
+//line sqlparser/parser.y:2256
 		{
 			yyVAL.str = ""
 		}
 	case 409:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2259
+//line sqlparser/parser.y:2260
 		{
 			yyVAL.str = "full "
 		}
 	case 410:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2265
+//line sqlparser/parser.y:2266
 		{
 			yyVAL.str = ""
 		}
 	case 411:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2269
+//line sqlparser/parser.y:2270
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
 	case 412:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2273
+//line sqlparser/parser.y:2274
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
 	case 413:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2279
+//line sqlparser/parser.y:2280
 		{
 			yyVAL.showFilter = nil
 		}
 	case 414:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2283
+//line sqlparser/parser.y:2284
 		{
 			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
 	case 415:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2287
+//line sqlparser/parser.y:2288
 		{
 			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
 	case 416:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2293
+//line sqlparser/parser.y:2294
 		{
 			yyVAL.str = ""
 		}
 	case 417:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2297
+//line sqlparser/parser.y:2298
 		{
 			yyVAL.str = SessionStr
 		}
 	case 418:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2301
+//line sqlparser/parser.y:2302
 		{
 			yyVAL.str = GlobalStr
 		}
 	case 419:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2307
+//line sqlparser/parser.y:2308
 		{
 			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
 	case 420:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2311
+//line sqlparser/parser.y:2312
 		{
 			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
 	case 421:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2317
+//line sqlparser/parser.y:2318
 		{
 			yyVAL.statement = &Begin{}
 		}
 	case 422:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2321
+//line sqlparser/parser.y:2322
 		{
 			yyVAL.statement = &Begin{}
 		}
 	case 423:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2327
+//line sqlparser/parser.y:2328
 		{
 			yyVAL.statement = &Commit{}
 		}
 	case 424:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2333
+//line sqlparser/parser.y:2334
 		{
 			yyVAL.statement = &Rollback{}
 		}
 	case 425:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2339
+//line sqlparser/parser.y:2340
 		{
 			yyVAL.statement = &OtherRead{}
 		}
 	case 426:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2343
+//line sqlparser/parser.y:2344
 		{
 			yyVAL.statement = &OtherRead{}
 		}
 	case 427:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2347
+//line sqlparser/parser.y:2348
 		{
 			yyVAL.statement = &OtherRead{}
 		}
 	case 428:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2351
+//line sqlparser/parser.y:2352
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
 	case 429:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2355
+//line sqlparser/parser.y:2356
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
 	case 430:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2360
+//line sqlparser/parser.y:2361
 		{
 			setAllowComments(yylex, true)
 		}
 	case 431:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2364
+//line sqlparser/parser.y:2365
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
 	case 432:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2370
+//line sqlparser/parser.y:2371
 		{
 			yyVAL.bytes2 = nil
 		}
 	case 433:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2374
+//line sqlparser/parser.y:2375
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
 	case 434:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2380
+//line sqlparser/parser.y:2381
 		{
 			yyVAL.str = UnionStr
 		}
 	case 435:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2384
+//line sqlparser/parser.y:2385
 		{
 			yyVAL.str = UnionAllStr
 		}
 	case 436:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2388
+//line sqlparser/parser.y:2389
 		{
 			yyVAL.str = UnionDistinctStr
 		}
 	case 437:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2393
+//line sqlparser/parser.y:2394
 		{
 			yyVAL.str = ""
 		}
 	case 438:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2397
+//line sqlparser/parser.y:2398
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
 	case 439:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2401
+//line sqlparser/parser.y:2402
 		{
 			yyVAL.str = SQLCacheStr
 		}
 	case 440:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2406
+//line sqlparser/parser.y:2407
 		{
 			yyVAL.str = ""
 		}
 	case 441:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2410
+//line sqlparser/parser.y:2411
 		{
 			yyVAL.str = DistinctStr
 		}
 	case 442:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2415
+//line sqlparser/parser.y:2416
 		{
 			yyVAL.str = ""
 		}
 	case 443:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2419
+//line sqlparser/parser.y:2420
 		{
 			yyVAL.str = StraightJoinHint
 		}
 	case 444:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2424
+//line sqlparser/parser.y:2425
 		{
 			yyVAL.selectExprs = nil
 		}
 	case 445:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2428
+//line sqlparser/parser.y:2429
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
 	case 446:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2434
+//line sqlparser/parser.y:2435
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
 	case 447:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2438
+//line sqlparser/parser.y:2439
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
 	case 448:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2444
+//line sqlparser/parser.y:2445
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
 	case 449:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2448
+//line sqlparser/parser.y:2449
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
 	case 450:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2452
+//line sqlparser/parser.y:2453
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
 	case 451:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2456
+//line sqlparser/parser.y:2457
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
 	case 452:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2461
+//line sqlparser/parser.y:2462
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
 	case 453:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2465
+//line sqlparser/parser.y:2466
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
 	case 454:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2469
+//line sqlparser/parser.y:2470
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
 	case 456:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2476
+//line sqlparser/parser.y:2477
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 457:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2481
+//line sqlparser/parser.y:2482
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
 	case 458:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2485
+//line sqlparser/parser.y:2486
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
 	case 459:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2491
+//line sqlparser/parser.y:2492
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
 	case 460:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2495
+//line sqlparser/parser.y:2496
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
 	case 463:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2505
+//line sqlparser/parser.y:2506
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
 	case 464:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2509
+//line sqlparser/parser.y:2510
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
 	case 465:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2513
+//line sqlparser/parser.y:2514
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
 	case 466:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2519
+//line sqlparser/parser.y:2520
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
 	case 467:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2523
+//line sqlparser/parser.y:2524
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
 	case 468:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2529
+//line sqlparser/parser.y:2530
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
 	case 469:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2534
+//line sqlparser/parser.y:2535
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
 	case 470:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2538
+//line sqlparser/parser.y:2539
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
 	case 471:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2544
+//line sqlparser/parser.y:2545
 		{
 			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
 	case 472:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2548
+//line sqlparser/parser.y:2549
 		{
 			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
 	case 473:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2561
+//line sqlparser/parser.y:2562
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
 	case 474:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2565
+//line sqlparser/parser.y:2566
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
 	case 475:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2569
+//line sqlparser/parser.y:2570
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
 	case 476:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2573
+//line sqlparser/parser.y:2574
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
 		}
 	case 477:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2579
+//line sqlparser/parser.y:2580
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
 	case 478:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2581
+//line sqlparser/parser.y:2582
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
 	case 479:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2585
+//line sqlparser/parser.y:2586
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
 	case 480:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2587
+//line sqlparser/parser.y:2588
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
 	case 481:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2591
+//line sqlparser/parser.y:2592
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
 	case 482:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2593
+//line sqlparser/parser.y:2594
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
 	case 483:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2596
+//line sqlparser/parser.y:2597
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 484:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2598
+//line sqlparser/parser.y:2599
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 485:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2601
+//line sqlparser/parser.y:2602
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
 	case 486:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2605
+//line sqlparser/parser.y:2606
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
 	case 487:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2609
+//line sqlparser/parser.y:2610
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
 	case 489:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2616
+//line sqlparser/parser.y:2617
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
 	case 490:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2622
+//line sqlparser/parser.y:2623
 		{
 			yyVAL.str = JoinStr
 		}
 	case 491:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2626
+//line sqlparser/parser.y:2627
 		{
 			yyVAL.str = JoinStr
 		}
 	case 492:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2630
+//line sqlparser/parser.y:2631
 		{
 			yyVAL.str = JoinStr
 		}
 	case 493:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2636
+//line sqlparser/parser.y:2637
 		{
 			yyVAL.str = StraightJoinStr
 		}
 	case 494:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2642
+//line sqlparser/parser.y:2643
 		{
 			yyVAL.str = LeftJoinStr
 		}
 	case 495:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2646
+//line sqlparser/parser.y:2647
 		{
 			yyVAL.str = LeftJoinStr
 		}
 	case 496:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2650
+//line sqlparser/parser.y:2651
 		{
 			yyVAL.str = RightJoinStr
 		}
 	case 497:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2654
+//line sqlparser/parser.y:2655
 		{
 			yyVAL.str = RightJoinStr
 		}
 	case 498:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2660
+//line sqlparser/parser.y:2661
 		{
 			yyVAL.str = NaturalJoinStr
 		}
 	case 499:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2664
+//line sqlparser/parser.y:2665
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6331,463 +6331,463 @@ yydefault:
 		}
 	case 500:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2674
+//line sqlparser/parser.y:2675
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
 	case 501:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2678
+//line sqlparser/parser.y:2679
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
 	case 502:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2684
+//line sqlparser/parser.y:2685
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
 	case 503:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2688
+//line sqlparser/parser.y:2689
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
 	case 504:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2693
+//line sqlparser/parser.y:2694
 		{
 			yyVAL.indexHints = nil
 		}
 	case 505:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2697
+//line sqlparser/parser.y:2698
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
 	case 506:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2701
+//line sqlparser/parser.y:2702
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
 	case 507:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2705
+//line sqlparser/parser.y:2706
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
 	case 508:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2710
+//line sqlparser/parser.y:2711
 		{
 			yyVAL.expr = nil
 		}
 	case 509:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2714
+//line sqlparser/parser.y:2715
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
 	case 510:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2719
+//line sqlparser/parser.y:2720
 		{
 			yyVAL.columns = nil
 		}
 	case 511:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2723
+//line sqlparser/parser.y:2724
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
 	case 512:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2729
+//line sqlparser/parser.y:2730
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
 	case 513:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2733
+//line sqlparser/parser.y:2734
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
 	case 514:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2737
+//line sqlparser/parser.y:2738
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
 	case 515:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2741
+//line sqlparser/parser.y:2742
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
 	case 516:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2745
+//line sqlparser/parser.y:2746
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
 	case 517:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2749
+//line sqlparser/parser.y:2750
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
 	case 518:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2753
+//line sqlparser/parser.y:2754
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
 	case 519:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2759
+//line sqlparser/parser.y:2760
 		{
 			yyVAL.str = ""
 		}
 	case 520:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2763
+//line sqlparser/parser.y:2764
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
 	case 521:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2769
+//line sqlparser/parser.y:2770
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 522:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2773
+//line sqlparser/parser.y:2774
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 523:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2779
+//line sqlparser/parser.y:2780
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
 	case 524:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2783
+//line sqlparser/parser.y:2784
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
 	case 525:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2787
+//line sqlparser/parser.y:2788
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
 	case 526:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2791
+//line sqlparser/parser.y:2792
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
 	case 527:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2795
+//line sqlparser/parser.y:2796
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
 	case 528:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2799
+//line sqlparser/parser.y:2800
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
 	case 529:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2803
+//line sqlparser/parser.y:2804
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
 	case 530:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2807
+//line sqlparser/parser.y:2808
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
 	case 531:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2811
+//line sqlparser/parser.y:2812
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
 	case 532:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2815
+//line sqlparser/parser.y:2816
 		{
 			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
 	case 533:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2821
+//line sqlparser/parser.y:2822
 		{
 			yyVAL.str = IsNullStr
 		}
 	case 534:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2825
+//line sqlparser/parser.y:2826
 		{
 			yyVAL.str = IsNotNullStr
 		}
 	case 535:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2829
+//line sqlparser/parser.y:2830
 		{
 			yyVAL.str = IsTrueStr
 		}
 	case 536:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2833
+//line sqlparser/parser.y:2834
 		{
 			yyVAL.str = IsNotTrueStr
 		}
 	case 537:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2837
+//line sqlparser/parser.y:2838
 		{
 			yyVAL.str = IsFalseStr
 		}
 	case 538:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2841
+//line sqlparser/parser.y:2842
 		{
 			yyVAL.str = IsNotFalseStr
 		}
 	case 539:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2847
+//line sqlparser/parser.y:2848
 		{
 			yyVAL.str = EqualStr
 		}
 	case 540:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2851
+//line sqlparser/parser.y:2852
 		{
 			yyVAL.str = LessThanStr
 		}
 	case 541:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2855
+//line sqlparser/parser.y:2856
 		{
 			yyVAL.str = GreaterThanStr
 		}
 	case 542:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2859
+//line sqlparser/parser.y:2860
 		{
 			yyVAL.str = LessEqualStr
 		}
 	case 543:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2863
+//line sqlparser/parser.y:2864
 		{
 			yyVAL.str = GreaterEqualStr
 		}
 	case 544:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2867
+//line sqlparser/parser.y:2868
 		{
 			yyVAL.str = NotEqualStr
 		}
 	case 545:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2871
+//line sqlparser/parser.y:2872
 		{
 			yyVAL.str = NullSafeEqualStr
 		}
 	case 546:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2876
+//line sqlparser/parser.y:2877
 		{
 			yyVAL.expr = nil
 		}
 	case 547:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2880
+//line sqlparser/parser.y:2881
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
 	case 548:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2886
+//line sqlparser/parser.y:2887
 		{
 			yyVAL.colTuple = yyDollar[1].valTuple
 		}
 	case 549:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2890
+//line sqlparser/parser.y:2891
 		{
 			yyVAL.colTuple = yyDollar[1].subquery
 		}
 	case 550:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2894
+//line sqlparser/parser.y:2895
 		{
 			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
 	case 551:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2900
+//line sqlparser/parser.y:2901
 		{
 			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
 	case 552:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2906
+//line sqlparser/parser.y:2907
 		{
 			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
 	case 553:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2910
+//line sqlparser/parser.y:2911
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 554:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2916
+//line sqlparser/parser.y:2917
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
 	case 555:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2920
+//line sqlparser/parser.y:2921
 		{
 			yyVAL.expr = yyDollar[1].boolVal
 		}
 	case 556:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2924
+//line sqlparser/parser.y:2925
 		{
 			yyVAL.expr = yyDollar[1].colName
 		}
 	case 557:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2928
+//line sqlparser/parser.y:2929
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
 	case 558:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2932
+//line sqlparser/parser.y:2933
 		{
 			yyVAL.expr = yyDollar[1].subquery
 		}
 	case 559:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2936
+//line sqlparser/parser.y:2937
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
 	case 560:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2940
+//line sqlparser/parser.y:2941
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
 	case 561:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2944
+//line sqlparser/parser.y:2945
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
 	case 562:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2948
+//line sqlparser/parser.y:2949
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
 	case 563:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2952
+//line sqlparser/parser.y:2953
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
 	case 564:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2956
+//line sqlparser/parser.y:2957
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
 	case 565:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2960
+//line sqlparser/parser.y:2961
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
 	case 566:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2964
+//line sqlparser/parser.y:2965
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
 	case 567:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2968
+//line sqlparser/parser.y:2969
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
 	case 568:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2972
+//line sqlparser/parser.y:2973
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
 	case 569:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2976
+//line sqlparser/parser.y:2977
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
 	case 570:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2980
+//line sqlparser/parser.y:2981
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
 	case 571:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2984
+//line sqlparser/parser.y:2985
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
 	case 572:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2988
+//line sqlparser/parser.y:2989
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
 	case 573:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2992
+//line sqlparser/parser.y:2993
 		{
 			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
 	case 574:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2996
+//line sqlparser/parser.y:2997
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
 	case 575:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3000
+//line sqlparser/parser.y:3001
 		{
 			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
 		}
 	case 576:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3004
+//line sqlparser/parser.y:3005
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6797,7 +6797,7 @@ yydefault:
 		}
 	case 577:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3012
+//line sqlparser/parser.y:3013
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6813,19 +6813,19 @@ yydefault:
 		}
 	case 578:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3026
+//line sqlparser/parser.y:3027
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
 	case 579:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3030
+//line sqlparser/parser.y:3031
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
 	case 580:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3034
+//line sqlparser/parser.y:3035
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6835,271 +6835,271 @@ yydefault:
 		}
 	case 581:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3042
+//line sqlparser/parser.y:3043
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType}
 		}
 	case 586:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3056
+//line sqlparser/parser.y:3057
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
 	case 587:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3060
+//line sqlparser/parser.y:3061
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
 	case 588:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3064
+//line sqlparser/parser.y:3065
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
 	case 589:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3074
+//line sqlparser/parser.y:3075
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 590:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3078
+//line sqlparser/parser.y:3079
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 591:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3082
+//line sqlparser/parser.y:3083
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
 	case 592:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3086
+//line sqlparser/parser.y:3087
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
 	case 593:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3090
+//line sqlparser/parser.y:3091
 		{
 			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
 	case 594:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3094
+//line sqlparser/parser.y:3095
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
 	case 595:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3098
+//line sqlparser/parser.y:3099
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 596:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3102
+//line sqlparser/parser.y:3103
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 597:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3106
+//line sqlparser/parser.y:3107
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
 	case 598:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3110
+//line sqlparser/parser.y:3111
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 599:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3114
+//line sqlparser/parser.y:3115
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 600:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:3118
+//line sqlparser/parser.y:3119
 		{
 			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
 	case 601:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3122
+//line sqlparser/parser.y:3123
 		{
 			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
 	case 602:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3126
+//line sqlparser/parser.y:3127
 		{
 			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
 	case 603:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3130
+//line sqlparser/parser.y:3131
 		{
 			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
 	case 604:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3140
+//line sqlparser/parser.y:3141
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
 	case 605:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3144
+//line sqlparser/parser.y:3145
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
 	case 606:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3148
+//line sqlparser/parser.y:3149
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
 	case 607:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3152
+//line sqlparser/parser.y:3153
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
 	case 608:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3157
+//line sqlparser/parser.y:3158
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
 	case 609:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3162
+//line sqlparser/parser.y:3163
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
 	case 610:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3167
+//line sqlparser/parser.y:3168
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
 	case 611:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3172
+//line sqlparser/parser.y:3173
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
 		}
 	case 612:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3176
+//line sqlparser/parser.y:3177
 		{
 			yyVAL.expr = &ConvertExpr{Type: yyDollar[2].convertType}
 		}
 	case 615:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3190
+//line sqlparser/parser.y:3191
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 616:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3194
+//line sqlparser/parser.y:3195
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 617:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3198
+//line sqlparser/parser.y:3199
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 618:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3202
+//line sqlparser/parser.y:3203
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 619:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3208
+//line sqlparser/parser.y:3209
 		{
 			yyVAL.str = ""
 		}
 	case 620:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3212
+//line sqlparser/parser.y:3213
 		{
 			yyVAL.str = BooleanModeStr
 		}
 	case 621:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3216
+//line sqlparser/parser.y:3217
 		{
 			yyVAL.str = NaturalLanguageModeStr
 		}
 	case 622:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3220
+//line sqlparser/parser.y:3221
 		{
 			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
 	case 623:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3224
+//line sqlparser/parser.y:3225
 		{
 			yyVAL.str = QueryExpansionStr
 		}
 	case 624:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3230
+//line sqlparser/parser.y:3231
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 625:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3234
+//line sqlparser/parser.y:3235
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 626:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3240
+//line sqlparser/parser.y:3241
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 627:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3244
+//line sqlparser/parser.y:3245
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
 	case 628:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3248
+//line sqlparser/parser.y:3249
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
 	case 629:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3252
+//line sqlparser/parser.y:3253
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 630:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3256
+//line sqlparser/parser.y:3257
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 631:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3260
+//line sqlparser/parser.y:3261
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
@@ -7107,217 +7107,217 @@ yydefault:
 		}
 	case 632:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3266
+//line sqlparser/parser.y:3267
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 633:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3270
+//line sqlparser/parser.y:3271
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 634:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3274
+//line sqlparser/parser.y:3275
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 635:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3278
+//line sqlparser/parser.y:3279
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 636:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3282
+//line sqlparser/parser.y:3283
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 637:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3286
+//line sqlparser/parser.y:3287
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 638:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3290
+//line sqlparser/parser.y:3291
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 639:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3294
+//line sqlparser/parser.y:3295
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 640:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3300
+//line sqlparser/parser.y:3301
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 641:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3304
+//line sqlparser/parser.y:3305
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
 	case 642:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3308
+//line sqlparser/parser.y:3309
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 643:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3312
+//line sqlparser/parser.y:3313
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 644:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3316
+//line sqlparser/parser.y:3317
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
 	case 645:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3320
+//line sqlparser/parser.y:3321
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
 	case 646:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3324
+//line sqlparser/parser.y:3325
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 647:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3329
+//line sqlparser/parser.y:3330
 		{
 			yyVAL.expr = nil
 		}
 	case 648:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3333
+//line sqlparser/parser.y:3334
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
 	case 649:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3338
+//line sqlparser/parser.y:3339
 		{
 			yyVAL.str = string("")
 		}
 	case 650:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3342
+//line sqlparser/parser.y:3343
 		{
 			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
 		}
 	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3348
+//line sqlparser/parser.y:3349
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
 	case 652:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3352
+//line sqlparser/parser.y:3353
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
 	case 653:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3358
+//line sqlparser/parser.y:3359
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
 	case 654:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3363
+//line sqlparser/parser.y:3364
 		{
 			yyVAL.expr = nil
 		}
 	case 655:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3367
+//line sqlparser/parser.y:3368
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
 	case 656:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3373
+//line sqlparser/parser.y:3374
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
 	case 657:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3377
+//line sqlparser/parser.y:3378
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
 	case 658:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3381
+//line sqlparser/parser.y:3382
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
 	case 659:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3387
+//line sqlparser/parser.y:3388
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
 	case 660:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3391
+//line sqlparser/parser.y:3392
 		{
 			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
 	case 661:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3395
+//line sqlparser/parser.y:3396
 		{
 			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
 	case 662:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3399
+//line sqlparser/parser.y:3400
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
 	case 663:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3403
+//line sqlparser/parser.y:3404
 		{
 			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
 	case 664:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3407
+//line sqlparser/parser.y:3408
 		{
 			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
 	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3411
+//line sqlparser/parser.y:3412
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
 	case 666:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3415
+//line sqlparser/parser.y:3416
 		{
 			yyVAL.expr = &NullVal{}
 		}
 	case 667:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3421
+//line sqlparser/parser.y:3422
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7328,237 +7328,237 @@ yydefault:
 		}
 	case 668:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3430
+//line sqlparser/parser.y:3431
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
 	case 669:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3434
+//line sqlparser/parser.y:3435
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
 	case 670:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3439
+//line sqlparser/parser.y:3440
 		{
 			yyVAL.exprs = nil
 		}
 	case 671:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3443
+//line sqlparser/parser.y:3444
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
 	case 672:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3448
+//line sqlparser/parser.y:3449
 		{
 			yyVAL.expr = nil
 		}
 	case 673:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3452
+//line sqlparser/parser.y:3453
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
 	case 674:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3457
+//line sqlparser/parser.y:3458
 		{
 			yyVAL.orderBy = nil
 		}
 	case 675:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3461
+//line sqlparser/parser.y:3462
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
 	case 676:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3467
+//line sqlparser/parser.y:3468
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
 	case 677:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3471
+//line sqlparser/parser.y:3472
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
 	case 678:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3477
+//line sqlparser/parser.y:3478
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
 	case 679:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3482
+//line sqlparser/parser.y:3483
 		{
 			yyVAL.str = AscScr
 		}
 	case 680:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3486
+//line sqlparser/parser.y:3487
 		{
 			yyVAL.str = AscScr
 		}
 	case 681:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3490
+//line sqlparser/parser.y:3491
 		{
 			yyVAL.str = DescScr
 		}
 	case 682:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3495
+//line sqlparser/parser.y:3496
 		{
 			yyVAL.limit = nil
 		}
 	case 683:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3499
+//line sqlparser/parser.y:3500
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
 	case 684:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3503
+//line sqlparser/parser.y:3504
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
 	case 685:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3507
+//line sqlparser/parser.y:3508
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
 	case 686:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3512
+//line sqlparser/parser.y:3513
 		{
 			yyVAL.str = ""
 		}
 	case 687:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3516
+//line sqlparser/parser.y:3517
 		{
 			yyVAL.str = ForUpdateStr
 		}
 	case 688:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3520
+//line sqlparser/parser.y:3521
 		{
 			yyVAL.str = ShareModeStr
 		}
 	case 689:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3533
+//line sqlparser/parser.y:3534
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
 	case 690:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3537
+//line sqlparser/parser.y:3538
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
 	case 691:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3541
+//line sqlparser/parser.y:3542
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
 	case 692:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3546
+//line sqlparser/parser.y:3547
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
 	case 693:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3550
+//line sqlparser/parser.y:3551
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
 	case 694:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3554
+//line sqlparser/parser.y:3555
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
 	case 695:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3561
+//line sqlparser/parser.y:3562
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
 	case 696:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3565
+//line sqlparser/parser.y:3566
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
 	case 697:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3569
+//line sqlparser/parser.y:3570
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
 	case 698:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3573
+//line sqlparser/parser.y:3574
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
 	case 699:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3578
+//line sqlparser/parser.y:3579
 		{
 			yyVAL.updateExprs = nil
 		}
 	case 700:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3582
+//line sqlparser/parser.y:3583
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
 	case 701:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3588
+//line sqlparser/parser.y:3589
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
 	case 702:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3592
+//line sqlparser/parser.y:3593
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
 	case 703:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3598
+//line sqlparser/parser.y:3599
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
 	case 704:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3602
+//line sqlparser/parser.y:3603
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
 	case 705:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3608
+//line sqlparser/parser.y:3609
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
 	case 706:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3614
+//line sqlparser/parser.y:3615
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7568,247 +7568,247 @@ yydefault:
 		}
 	case 707:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3624
+//line sqlparser/parser.y:3625
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
 	case 708:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3628
+//line sqlparser/parser.y:3629
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
 	case 709:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3634
+//line sqlparser/parser.y:3635
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
 	case 710:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3640
+//line sqlparser/parser.y:3641
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
 	case 711:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3644
+//line sqlparser/parser.y:3645
 		{
 			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
 	case 712:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3650
+//line sqlparser/parser.y:3651
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
 	case 713:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3654
+//line sqlparser/parser.y:3655
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
 	case 714:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3658
+//line sqlparser/parser.y:3659
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
 		}
 	case 715:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3662
+//line sqlparser/parser.y:3663
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
 	case 717:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3669
+//line sqlparser/parser.y:3670
 		{
 			yyVAL.bytes = []byte("charset")
 		}
 	case 719:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3676
+//line sqlparser/parser.y:3677
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
 	case 720:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3680
+//line sqlparser/parser.y:3681
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
 	case 721:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3684
+//line sqlparser/parser.y:3685
 		{
 			yyVAL.expr = &Default{}
 		}
 	case 724:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3693
+//line sqlparser/parser.y:3694
 		{
 			yyVAL.byt = 0
 		}
 	case 725:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3695
+//line sqlparser/parser.y:3696
 		{
 			yyVAL.byt = 1
 		}
 	case 726:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3698
+//line sqlparser/parser.y:3699
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 727:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3700
+//line sqlparser/parser.y:3701
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 728:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3703
+//line sqlparser/parser.y:3704
 		{
 			yyVAL.str = ""
 		}
 	case 729:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3705
+//line sqlparser/parser.y:3706
 		{
 			yyVAL.str = IgnoreStr
 		}
 	case 730:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3709
+//line sqlparser/parser.y:3710
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 731:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3711
+//line sqlparser/parser.y:3712
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 732:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3713
+//line sqlparser/parser.y:3714
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 733:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3715
+//line sqlparser/parser.y:3716
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 734:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3717
+//line sqlparser/parser.y:3718
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 735:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3719
+//line sqlparser/parser.y:3720
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 736:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3721
+//line sqlparser/parser.y:3722
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 737:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3723
+//line sqlparser/parser.y:3724
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 738:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3725
+//line sqlparser/parser.y:3726
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 739:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3727
+//line sqlparser/parser.y:3728
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 740:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3730
+//line sqlparser/parser.y:3731
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 741:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3732
+//line sqlparser/parser.y:3733
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3734
+//line sqlparser/parser.y:3735
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 743:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3738
+//line sqlparser/parser.y:3739
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 744:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3740
+//line sqlparser/parser.y:3741
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 745:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3744
+//line sqlparser/parser.y:3745
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 746:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3748
+//line sqlparser/parser.y:3749
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 748:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3755
+//line sqlparser/parser.y:3756
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 749:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3761
+//line sqlparser/parser.y:3762
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
 	case 750:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3765
+//line sqlparser/parser.y:3766
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
 	case 752:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3772
+//line sqlparser/parser.y:3773
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
 	case 993:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4038
+//line sqlparser/parser.y:4039
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
@@ -7817,31 +7817,31 @@ yydefault:
 		}
 	case 994:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4047
+//line sqlparser/parser.y:4048
 		{
 			decNesting(yylex)
 		}
 	case 995:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4052
+//line sqlparser/parser.y:4053
 		{
 			forceEOF(yylex)
 		}
 	case 996:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4057
+//line sqlparser/parser.y:4058
 		{
 			forceEOF(yylex)
 		}
 	case 997:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4061
+//line sqlparser/parser.y:4062
 		{
 			forceEOF(yylex)
 		}
 	case 998:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4065
+//line sqlparser/parser.y:4066
 		{
 			forceEOF(yylex)
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index c4c76a1..2c168c9 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -333,7 +333,8 @@ func forceEOF(yylex interface{}) {
 %type <boolVal> no_inherit_opt
 %type <str> identity_behavior
 %type <sequence> sequence_opt
-%type <boolVal> clustered_opt not_for_replication_opt
+%type <boolVal> not_for_replication_opt
+%type <str> clustered_opt
 %type <optVal> default_definition default_val
 %type <optVal> on_off
 %type <str> trigger_time trigger_event
@@ -592,7 +593,7 @@ create_statement:
           Name: $5,
           Type: NewColIdent(""),
           Unique: bool($2),
-          Clustered: bool($3),
+          Clustered: $3 == "clustered", // NONCLUSTERED by default
           Included: $11,
           Where: NewWhere(WhereStr, $12),
           Options: $13,
@@ -1730,11 +1731,11 @@ index_info:
   }
 | index_or_key ID clustered_opt
   {
-    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: false, Clustered: $3}
+    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: false, Clustered: $3 == "clustered"}
   }
 | index_or_key ID UNIQUE clustered_opt
   {
-    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: true, Clustered: $4}
+    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: true, Clustered: $4 == "clustered"}
   }
 
 index_or_key:
@@ -1837,7 +1838,7 @@ primary_key_definition:
   CONSTRAINT sql_id PRIMARY KEY clustered_opt '(' index_column_list ')' index_option_opt index_partition_opt
   {
     $$ = &IndexDefinition{
-      Info: &IndexInfo{Type: string($3) + " " + string($4), Name: $2, Primary: true, Unique: true, Clustered: $5},
+      Info: &IndexInfo{Type: string($3) + " " + string($4), Name: $2, Primary: true, Unique: true, Clustered: $5 != "nonclustered"}, // CLUSTERED by default
       Columns: $7,
       Options: $9,
       Partition: $10,
@@ -1847,15 +1848,15 @@ primary_key_definition:
 /* For SQL Server */
 clustered_opt:
   {
-    $$ = BoolVal(true)
+    $$ = ""
   }
 | CLUSTERED
   {
-    $$ = BoolVal(true)
+    $$ = "clustered"
   }
 | NONCLUSTERED
   {
-    $$ = BoolVal(false)
+    $$ = "nonclustered"
   }
 
 /* For SQL Server */
-- 
2.43.0


From 08714e88c1182625b40ff415b014ae436e0e7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 33/84] fix: keep the schema of SQL Server tables

---
 adapter/mssql/mssql.go |  7 ++++---
 schema/generator.go    |  8 ++++----
 schema/parser.go       | 19 +++++++++++++++----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 576ed02..c1c4d01 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -370,6 +370,7 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	query := fmt.Sprintf(`SELECT
 	f.name,
 	COL_NAME(f.parent_object_id, fc.parent_column_id),
+	OBJECT_SCHEMA_NAME(f.referenced_object_id),
 	OBJECT_NAME(f.referenced_object_id)_id,
 	COL_NAME(f.referenced_object_id, fc.referenced_column_id),
 	f.update_referential_action_desc,
@@ -386,15 +387,15 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 	defs := make([]string, 0)
 	for rows.Next() {
-		var constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
+		var constraintName, columnName, foreignSchemaName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
-		err = rows.Scan(&constraintName, &columnName, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule, &notForReplication)
+		err = rows.Scan(&constraintName, &columnName, &foreignSchemaName, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule, &notForReplication)
 		if err != nil {
 			return nil, err
 		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
+		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s].[%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignSchemaName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
 		if notForReplication {
 			def += " NOT FOR REPLICATION"
 		}
diff --git a/schema/generator.go b/schema/generator.go
index 0aeabc3..49a4a5d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -206,7 +206,7 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	}
 
 	// Drop obsoleted tables, after all foreign keys to them
-	for _, table := range sortTablesByReference(obsoletedTables) {
+	for _, table := range sortTablesByReference(g.mode, obsoletedTables) {
 		ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(table.name)))
 		g.currentTables = removeTableByName(g.currentTables, table.name)
 	}
@@ -1060,7 +1060,7 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 	}
 
 	referenceName := g.escapeSQLName(foreignKey.referenceName)
-	if g.mode == GeneratorModePostgres && strings.Contains(foreignKey.referenceName, ".") {
+	if defaultSchema(g.mode) != "" && strings.Contains(foreignKey.referenceName, ".") {
 		referenceName = g.escapeTableName(foreignKey.referenceName)
 	}
 
@@ -1684,7 +1684,7 @@ func moveString(strs []string, str string, position int) []string {
 }
 
 // Order tables so that each one comes before the tables its foreign keys refer to, as far as possible.
-func sortTablesByReference(tables []*Table) []*Table {
+func sortTablesByReference(mode GeneratorMode, tables []*Table) []*Table {
 	sorted := []*Table{}
 	visited := map[string]bool{}
 
@@ -1696,7 +1696,7 @@ func sortTablesByReference(tables []*Table) []*Table {
 		visited[table.name] = true
 		for _, other := range tables {
 			for _, foreignKey := range other.foreignKeys {
-				if foreignKey.referenceName == table.name || "public."+foreignKey.referenceName == table.name {
+				if foreignKey.referenceName == table.name || defaultSchema(mode)+"."+foreignKey.referenceName == table.name {
 					visit(other)
 				}
 			}
diff --git a/schema/parser.go b/schema/parser.go
index 8b6382f..b1d7fd4 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -511,24 +511,35 @@ func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 	}
 }
 
-// Qualify Postgres schema
+// Qualify Postgres and SQL Server schema
 func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) string {
 	table := tableName.Name.String()
-	if mode == GeneratorModePostgres {
+	if schema := defaultSchema(mode); schema != "" {
 		if len(tableName.Qualifier.String()) > 0 {
 			table = tableName.Qualifier.String() + "." + table
 		} else {
-			table = "public." + table
+			table = schema + "." + table
 		}
 	}
 	return table
 }
 
+func defaultSchema(mode GeneratorMode) string {
+	switch mode {
+	case GeneratorModePostgres:
+		return "public"
+	case GeneratorModeMssql:
+		return "dbo"
+	default:
+		return ""
+	}
+}
+
 // Keep the schema of a table a foreign key refers to, unless it's the default one
 func referencedTableName(mode GeneratorMode, tableName sqlparser.TableName) string {
 	table := tableName.Name.String()
 	schema := tableName.Qualifier.String()
-	if mode == GeneratorModePostgres && schema != "" && schema != "public" {
+	if defaultSchema(mode) != "" && schema != "" && schema != defaultSchema(mode) {
 		return schema + "." + table
 	}
 	return table
-- 
2.43.0


From 9a497a9d2b3912224d45121330a234e3ba1db2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 34/84] fix: keep the schema of the table a SQL Server trigger
 is on

---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index b1d7fd4..1ea36d4 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -421,7 +421,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &Trigger{
 				statement: ddl,
 				name:      stmt.Trigger.Name.String(),
-				tableName: stmt.Trigger.TableName.Name.String(),
+				tableName: normalizedTableName(mode, stmt.Trigger.TableName),
 				time:      stmt.Trigger.Time,
 				event:     stmt.Trigger.Event,
 				body:      body,
-- 
2.43.0


From 6a3677bda243c1edae254c013473d4b35b3ad071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 35/84] fix: don't dump the fill factor 0 of SQL Server indexes

---
 adapter/mssql/mssql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index c1c4d01..8cc1f46 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -305,13 +305,17 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		options := []indexOption{
 			{name: "PAD_INDEX", value: boolToOnOff(padIndex)},
-			{name: "FILLFACTOR", value: fillfactor},
+		}
+		if fillfactor != "0" { // not specified, and it can't be specified as 0
+			options = append(options, indexOption{name: "FILLFACTOR", value: fillfactor})
+		}
+		options = append(options, []indexOption{
 			{name: "IGNORE_DUP_KEY", value: boolToOnOff(ignoreDupKey)},
 			{name: "STATISTICS_NORECOMPUTE", value: boolToOnOff(noRecompute)},
 			{name: "STATISTICS_INCREMENTAL", value: boolToOnOff(incremental)},
 			{name: "ALLOW_ROW_LOCKS", value: boolToOnOff(rowLocks)},
 			{name: "ALLOW_PAGE_LOCKS", value: boolToOnOff(pageLocks)},
-		}
+		}...)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
-- 
2.43.0


From f6adcbc0ae577fa738e0e0489217f6f72c788c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 36/84] fix: don't panic at a SQL Server index created while
 the schema is read

---
 adapter/mssql/mssql.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 8cc1f46..6771ec1 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -351,15 +351,20 @@ ORDER BY ic.index_id, ic.index_column_id`, schema, table)
 			return nil, err
 		}
 
+		definition := indexDefMap[indexName]
+		if definition == nil {
+			continue // created after the indexes were listed
+		}
+
 		columnDefinition := fmt.Sprintf("[%s]", columnName)
 
 		if isIncluded {
-			indexDefMap[indexName].included = append(indexDefMap[indexName].included, columnDefinition)
+			definition.included = append(definition.included, columnDefinition)
 		} else {
 			if isDescending {
 				columnDefinition += " DESC"
 			}
-			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
+			definition.columns = append(definition.columns, columnDefinition)
 		}
 	}
 	if err := rows.Err(); err != nil {
-- 
2.43.0


From d1f1da072ebe2b3d8400c54c0f014c00d6a2549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 37/84] fix: read the columns of SQL Server tables in their
 order

---
 adapter/mssql/mssql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 6771ec1..ade9052 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -206,7 +206,8 @@ FROM sys.columns c WITH(NOLOCK)
 JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id
 LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id
 LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id]
-WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
+WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')
+ORDER BY c.column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-- 
2.43.0


From 191bda4b598f188daa1489dc39e1cb37220bd6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 38/84] fix: dump the lengths of all SQL Server types that have
 one

---
 adapter/mssql/mssql.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ade9052..9fe80f4 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -78,7 +78,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
 		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
-		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
+		if col.Length != "" {
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
 		}
 		if !col.Nullable {
@@ -191,6 +191,8 @@ func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
 	c.name,
 	[type_name] = tp.name,
 	c.max_length,
+	c.precision,
+	c.scale,
 	c.is_nullable,
 	c.is_identity,
 	ic.seed_value,
@@ -218,16 +220,28 @@ ORDER BY c.column_id`, schema, table)
 	cols := []column{}
 	for rows.Next() {
 		col := column{}
-		var colName, dataType, maxLen, defaultId string
+		var colName, dataType, defaultId string
+		var maxLen, precision, scale int
 		var seedValue, incrementValue, defaultName, defaultVal, checkName, checkDefinition *string
 		var isNullable, isIdentity bool
 		var identityNotForReplication, checkNotForReplication *bool
-		err = rows.Scan(&colName, &dataType, &maxLen, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
+		err = rows.Scan(&colName, &dataType, &maxLen, &precision, &scale, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
 		if err != nil {
 			return nil, err
 		}
 		col.Name = colName
-		col.Length = maxLen
+		switch dataType {
+		case "char", "varchar", "binary", "varbinary":
+			col.Length = fmt.Sprintf("%d", maxLen)
+		case "nchar", "nvarchar":
+			if maxLen > 0 { // in bytes
+				col.Length = fmt.Sprintf("%d", maxLen/2)
+			}
+		case "decimal", "numeric":
+			col.Length = fmt.Sprintf("%d, %d", precision, scale)
+		case "time", "datetimeoffset":
+			col.Length = fmt.Sprintf("%d", scale)
+		}
 		if defaultId != "0" {
 			col.DefaultName = *defaultName
 			col.DefaultVal = *defaultVal
-- 
2.43.0


From 003f1226943ff14503accca80557fee3d6fdba6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 39/84] fix: keep the case of view names

The name of a view was lowercased when its definition was parsed, and the
view was replaced under that name, which is another view on a case-sensitive
server.
---
 schema/generator.go | 20 ++++++--------------
 sqlparser/ast.go    |  2 +-
 sqlparser/parser.go |  2 +-
 sqlparser/parser.y  |  2 +-
 4 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 49a4a5d..ea500b2 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -222,7 +222,7 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 func (g *Generator) generateDDLsForAbsentViews() []string {
 	ddls := []string{}
 	for _, currentView := range g.currentViews {
-		if containsString(convertViewNames(g.desiredViews), currentView.name) {
+		if findViewByName(g.desiredViews, currentView.name) != nil {
 			continue
 		}
 		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
@@ -699,16 +699,16 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		// View found. If it's different, create or replace view.
 		if foldSQL(currentView.definition, strings.ToLower) != foldSQL(desiredView.definition, strings.ToLower) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
-				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
-				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
+				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
+				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(currentView.name), desiredView.definition))
 			} else {
-				ddls = append(ddls, fmt.Sprintf("CREATE OR REPLACE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
+				ddls = append(ddls, fmt.Sprintf("CREATE OR REPLACE VIEW %s AS %s", g.escapeTableName(currentView.name), desiredView.definition))
 			}
 		}
 	}
 
 	// Examine policies in desiredTable to delete obsoleted policies later
-	if containsString(convertViewNames(g.desiredViews), desiredView.name) {
+	if findViewByName(g.desiredViews, desiredView.name) != nil {
 		return nil, fmt.Errorf("view '%s' is doubly created: '%s'", desiredView.name, desiredView.statement)
 	}
 	g.desiredViews = append(g.desiredViews, desiredView)
@@ -1316,7 +1316,7 @@ func findPolicyByName(policies []Policy, name string) *Policy {
 
 func findViewByName(views []*View, name string) *View {
 	for _, view := range views {
-		if view.name == name {
+		if strings.EqualFold(view.name, name) {
 			return view
 		}
 	}
@@ -1648,14 +1648,6 @@ func convertPolicyNames(policies []Policy) []string {
 	return policyNames
 }
 
-func convertViewNames(views []*View) []string {
-	viewNames := make([]string, len(views))
-	for i, view := range views {
-		viewNames[i] = view.name
-	}
-	return viewNames
-}
-
 func containsString(strs []string, str string) bool {
 	for _, s := range strs {
 		if s == str {
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 9657b87..371ebdb 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -729,7 +729,7 @@ func (node *DDL) Format(buf *TrackedBuffer) {
 	case CreateVindexStr:
 		buf.Myprintf("%s %v %v", node.Action, node.VindexSpec.Name, node.VindexSpec)
 	case CreateViewStr:
-		buf.Myprintf("%s %v as %v", node.Action, node.View.Name, node.View.Definition)
+		buf.Myprintf("%s %v as %v", node.Action, node.View.Name.ToViewName(), node.View.Definition)
 	case AddColVindexStr:
 		buf.Myprintf("alter table %v %s %v (", node.Table, node.Action, node.VindexSpec.Name)
 		for i, col := range node.VindexCols {
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 5350856..9523c83 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -3741,7 +3741,7 @@ yydefault:
 		{
 			yyVAL.statement = &DDL{Action: CreateViewStr, View: &View{
 				Action:     CreateViewStr,
-				Name:       yyDollar[4].tableName.ToViewName(),
+				Name:       yyDollar[4].tableName,
 				Definition: yyDollar[6].selStmt,
 			}}
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 2c168c9..512d3bf 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -638,7 +638,7 @@ create_statement:
   {
     $$ = &DDL{Action: CreateViewStr, View: &View{
         Action: CreateViewStr,
-        Name: $4.ToViewName(),
+        Name: $4,
         Definition: $6,
     }}
   }
-- 
2.43.0


From e167092e4e5c5a7b643e87ff4b6a2724440dee20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 40/84] fix: quote the names of views and triggers in a MySQL
 dump

A view or trigger whose name needs quotes made sqldef refuse the database it's in.
---
 adapter/mysql/mysql.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 2ae71d2..34317ee 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
 	"github.com/k0kubun/sqldef/adapter"
@@ -76,7 +77,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
+		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", quoteName(viewName), definition))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -97,7 +98,7 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		if err = rows.Scan(&trigger, &event, &table, &statement, &timing, &created, &sqlMode, &definer, &characterSetClient, &collationConnection, &databaseCollation); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
+		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", quoteName(trigger), timing, event, quoteName(table), statement))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -113,6 +114,10 @@ func (d *MysqlDatabase) Close() error {
 	return d.db.Close()
 }
 
+func quoteName(name string) string {
+	return "`" + strings.Replace(name, "`", "``", -1) + "`"
+}
+
 func mysqlBuildDSN(config adapter.Config) string {
 	c := driver.NewConfig()
 	c.User = config.User
-- 
2.43.0


From 1b495f879a0f4b3bcaf16388e9ff8e053b0edb17 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 41/84] fix: quote names the way of Postgres and SQL Server

Names in a Postgres dump weren't quoted, and the names in the definition of
a view, a check, a policy or a trigger were quoted with backquotes or not at
all, so that sqldef refused the dump, or executed another definition.
---
 adapter/postgres/postgres.go | 20 ++++++++++++---
 schema/parser.go             | 49 +++++++++++++++++++++++++-----------
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index ee907a8..086752a 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
+	"github.com/k0kubun/sqldef/sqlparser"
 	_ "github.com/lib/pq"
 )
 
@@ -88,7 +89,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(
 			ddls, fmt.Sprintf(
-				"CREATE VIEW %s AS %s", schema+"."+name, definition,
+				"CREATE VIEW %s AS %s", quoteName(schema)+"."+quoteName(name), definition,
 			),
 		)
 	}
@@ -128,7 +129,8 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
 	var queryBuilder strings.Builder
-	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
+	schema, name := splitTableName(table)
+	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s.%s (", quoteName(schema), quoteName(name))
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
@@ -376,7 +378,7 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		def := fmt.Sprintf(
 			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			tableSchema, tableName, constraintName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule,
+			quoteName(tableSchema), quoteName(tableName), quoteName(constraintName), quoteName(columnName), quoteName(foreignTableSchema), quoteName(foreignTableName), quoteName(foreignColumnName), foreignUpdateRule, foreignDeleteRule,
 		)
 		defs = append(defs, def)
 	}
@@ -414,7 +416,7 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
 			"CREATE POLICY %s ON %s.%s AS %s FOR %s TO %s",
-			policyName, schema, table, permissive, cmd, roles,
+			quoteName(policyName), quoteName(schema), quoteName(table), permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
@@ -461,6 +463,16 @@ func postgresBuildDSN(config adapter.Config) string {
 	return fmt.Sprintf("postgres://%s@%s/%s?%s", userinfo, host, url.PathEscape(config.DbName), strings.Join(options, "&"))
 }
 
+var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
+// Quote a name, if it needs to be to be read as the same name again.
+func quoteName(name string) string {
+	if plainName.MatchString(name) && sqlparser.String(sqlparser.NewTableIdent(name)) == name {
+		return name
+	}
+	return `"` + strings.Replace(name, `"`, `""`, -1) + `"`
+}
+
 func splitTableName(table string) (string, string) {
 	schema := "public"
 	schemaTable := strings.SplitN(table, ".", 2)
diff --git a/schema/parser.go b/schema/parser.go
index 1ea36d4..1b33d5a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -76,8 +76,8 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	return &ret
 }
 
-// Format an AST node as SQL. Only MySQL understands backslashes in a string and `convert(expr, type)`.
-func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+// Format an AST node of a DDL as SQL. Only MySQL understands backslashes in a string and `convert(expr, type)`.
+func formatNode(mode GeneratorMode, ddl string, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql {
 		return sqlparser.String(node)
 	}
@@ -86,6 +86,10 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 			buf.Myprintf("'%s'", strings.Replace(string(val.Val), "'", "''", -1))
 		} else if convert, ok := node.(*sqlparser.ConvertExpr); ok && convert != nil && convert.Expr != nil {
 			buf.Myprintf("cast(%v as %v)", convert.Expr, convert.Type)
+		} else if name, ok := node.(sqlparser.ColIdent); ok {
+			buf.Myprintf("%s", formatName(mode, ddl, name.String(), sqlparser.String(name)))
+		} else if name, ok := node.(sqlparser.TableIdent); ok {
+			buf.Myprintf("%s", formatName(mode, ddl, name.String(), sqlparser.String(name)))
 		} else {
 			node.Format(buf)
 		}
@@ -94,6 +98,23 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	return buf.String()
 }
 
+// Format a name in a DDL, given what it is with the quotes of MySQL. Postgres doesn't know those,
+// and lowercases a name which isn't quoted.
+func formatName(mode GeneratorMode, ddl string, name string, formatted string) string {
+	switch mode {
+	case GeneratorModePostgres:
+		quoted := `"` + strings.Replace(name, `"`, `""`, -1) + `"`
+		if formatted != name || (name != strings.ToLower(name) && strings.Contains(ddl, quoted)) {
+			return quoted
+		}
+	case GeneratorModeMssql:
+		if formatted != name {
+			return "[" + strings.Replace(name, "]", "]]", -1) + "]"
+		}
+	}
+	return formatted
+}
+
 // Assume an integer length. Maybe useful only for index lengths.
 // TODO: Change IndexColumn.Length in parser.y to integer in the first place
 func parseLength(val *sqlparser.SQLVal) (*int, error) {
@@ -110,7 +131,7 @@ func parseLength(val *sqlparser.SQLVal) (*int, error) {
 	return &intVal, nil
 }
 
-func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
+func parseTable(mode GeneratorMode, ddl string, stmt *sqlparser.DDL) (Table, error) {
 	columns := []Column{}
 	indexes := []Index{}
 	foreignKeys := []ForeignKey{}
@@ -139,7 +160,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
+				definition:        formatNode(mode, ddl, parsedCol.Type.Check.Where.Expr),
 				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
@@ -227,7 +248,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-func parseIndex(stmt *sqlparser.DDL) (Index, error) {
+func parseIndex(mode GeneratorMode, ddl string, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
 	}
@@ -255,7 +276,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
 			expr = parenExpr.Expr
 		}
-		where = sqlparser.String(expr)
+		where = formatNode(mode, ddl, expr)
 	}
 
 	includedColumns := []string{}
@@ -320,7 +341,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 	case *sqlparser.DDL:
 		if stmt.Action == "create" {
 			// TODO: handle other create DDL as error?
-			table, err := parseTable(mode, stmt)
+			table, err := parseTable(mode, ddl, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -329,7 +350,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				table:     table,
 			}, nil
 		} else if stmt.Action == "create index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, ddl, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -339,7 +360,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, ddl, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -349,7 +370,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add primary key" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, ddl, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -389,10 +410,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = formatNode(mode, stmt.Policy.Using.Expr)
+				using = formatNode(mode, ddl, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
+				withCheck = formatNode(mode, ddl, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -410,12 +431,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: formatNode(mode, stmt.View.Definition),
+				definition: formatNode(mode, ddl, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, formatNode(mode, triggerStatement))
+				body = append(body, formatNode(mode, ddl, triggerStatement))
 			}
 
 			return &Trigger{
-- 
2.43.0


From cf85134886c620aeb02353878063010a19a204a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 42/84] fix: quote the names of check constraints

Those that need quotes made invalid SQL, on SQL Server because of backquotes.
---
 schema/generator.go | 18 ++++++++++++++----
 schema/parser.go    |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ea500b2..0d845d9 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -7,6 +7,8 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+
+	"github.com/k0kubun/sqldef/sqlparser"
 )
 
 type GeneratorMode int
@@ -381,11 +383,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
 					constraintName := fmt.Sprintf("%s_%s_check", tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeCheckName(constraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), constraintName, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), g.escapeCheckName(constraintName), desiredColumn.check.definition)
 						if desiredColumn.checkNoInherit {
 							ddl += " NO INHERIT"
 						}
@@ -399,7 +401,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					constraintName := fmt.Sprintf("%s_%s_check", tableNameWithoutSchema(desired.table.name), desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), currentConstraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeCheckName(currentConstraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
@@ -411,7 +413,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						if desiredColumn.check.notForReplication {
 							replicationDefinition = " NOT FOR REPLICATION"
 						}
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), desiredConstraintName, replicationDefinition, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), g.escapeCheckName(desiredConstraintName), replicationDefinition, desiredColumn.check.definition)
 						ddls = append(ddls, ddl)
 					}
 				}
@@ -1133,6 +1135,14 @@ func (g *Generator) escapeSQLName(name string) string {
 	}
 }
 
+// Escape the name of a check constraint only when it has to be.
+func (g *Generator) escapeCheckName(name string) string {
+	if sqlparser.String(sqlparser.NewColIdent(name)) == name && (g.mode != GeneratorModePostgres || strings.ToLower(name) == name) {
+		return name
+	}
+	return g.escapeSQLName(name)
+}
+
 func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
diff --git a/schema/parser.go b/schema/parser.go
index 1b33d5a..f4dc34d 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -161,7 +161,7 @@ func parseTable(mode GeneratorMode, ddl string, stmt *sqlparser.DDL) (Table, err
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
 				definition:        formatNode(mode, ddl, parsedCol.Type.Check.Where.Expr),
-				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
+				constraintName:    parsedCol.Type.Check.ConstraintName.String(),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
 		}
-- 
2.43.0


From 18846357f2082744387bc7bdf79d95dfad69ade2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 43/84] fix: quote names in a SQL Server dump

Names of tables, columns and defaults that need quotes made sqldef refuse the database they're in.
---
 adapter/mssql/mssql.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 9fe80f4..a661991 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -9,6 +9,7 @@ import (
 
 	_ "github.com/denisenkom/go-mssqldb"
 	"github.com/k0kubun/sqldef/adapter"
+	"github.com/k0kubun/sqldef/sqlparser"
 )
 
 const indent = "    "
@@ -71,13 +72,15 @@ func (d *MssqlDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, foreignDefs []string) string {
 	var queryBuilder strings.Builder
-	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
+	schema, name := splitTableName(table)
+	tableName := quoteName(schema) + "." + quoteName(name)
+	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", tableName)
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
-		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
+		fmt.Fprintf(&queryBuilder, "%s %s", quoteName(col.Name), col.dataType)
 		if col.Length != "" {
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
 		}
@@ -85,7 +88,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			fmt.Fprint(&queryBuilder, " NOT NULL")
 		}
 		if col.DefaultName != "" {
-			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s DEFAULT %s", col.DefaultName, col.DefaultVal)
+			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s DEFAULT %s", quoteName(col.DefaultName), col.DefaultVal)
 		}
 		if col.Identity != nil {
 			fmt.Fprintf(&queryBuilder, " IDENTITY(%s,%s)", col.Identity.SeedValue, col.Identity.IncrementValue)
@@ -143,7 +146,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		if indexDef.indexType == "CLUSTERED" || indexDef.indexType == "NONCLUSTERED" {
 			fmt.Fprintf(&queryBuilder, " %s", indexDef.indexType)
 		}
-		fmt.Fprintf(&queryBuilder, " INDEX [%s] ON %s (%s)", indexDef.name, table, strings.Join(indexDef.columns, ", "))
+		fmt.Fprintf(&queryBuilder, " INDEX [%s] ON %s (%s)", indexDef.name, tableName, strings.Join(indexDef.columns, ", "))
 		if len(indexDef.included) > 0 {
 			fmt.Fprintf(&queryBuilder, " INCLUDE (%s)", strings.Join(indexDef.included, ", "))
 		}
@@ -208,7 +211,7 @@ FROM sys.columns c WITH(NOLOCK)
 JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id
 LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id
 LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id]
-WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')
+WHERE c.[object_id] = OBJECT_ID('[%s].[%s]', 'U')
 ORDER BY c.column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
@@ -531,6 +534,14 @@ func mssqlBuildDSN(config adapter.Config) string {
 	return u.String()
 }
 
+// Quote a name, if it needs to be to be read as the same name again.
+func quoteName(name string) string {
+	if sqlparser.String(sqlparser.NewTableIdent(name)) == name {
+		return name
+	}
+	return "[" + strings.Replace(name, "]", "]]", -1) + "]"
+}
+
 func splitTableName(table string) (string, string) {
 	schema := "dbo"
 	schemaTable := strings.SplitN(table, ".", 2)
-- 
2.43.0


From e48143f95b12cc21fd54b728e0ba7a65811f9980 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 44/84] fix: keep the line breaks and spaces of SQL Server
 views

Without its line breaks, the words of a view's definition ran into each other,
and a comment went on to its end. Runs of spaces were shortened in strings, too.
---
 adapter/mssql/mssql.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a661991..378ef7a 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -443,10 +443,7 @@ func boolToOnOff(in bool) string {
 	}
 }
 
-var (
-	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
-)
+var suffixSemicolon = regexp.MustCompile(`;$`)
 
 func (d *MssqlDatabase) Views() ([]string, error) {
 	const sql = `SELECT
@@ -474,9 +471,7 @@ INNER JOIN sys.sql_modules
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
 	if err := rows.Err(); err != nil {
-- 
2.43.0


From 995a11f05f6d4d6c17da5505cc1b6c69f7334c53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 45/84] fix: keep the line breaks and spaces of Postgres views

Those in a string of a view's definition were changed, and the view was
replaced with every run.
---
 adapter/postgres/postgres.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 086752a..939f08c 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -59,10 +59,7 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 	return tables, nil
 }
 
-var (
-	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
-)
+var suffixSemicolon = regexp.MustCompile(`;$`)
 
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
@@ -84,9 +81,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(
 			ddls, fmt.Sprintf(
 				"CREATE VIEW %s AS %s", quoteName(schema)+"."+quoteName(name), definition,
-- 
2.43.0


From 57cea16de9943d86ee9be6e7aeaec6f6e7d9a0fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 46/84] fix: keep a line of a string that looks like a comment

Lines that begin with -- were left out of the SQL before it was split into
DDLs, those of a string included.
---
 schema/parser.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index f4dc34d..ab84d90 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -4,7 +4,6 @@ package schema
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -459,15 +458,18 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 }
 
 // Split `;`-concatenated DDLs, but not at a `;` inside a string, a quoted name or a comment.
+// A comment which begins a line, but isn't inside a string, is left out.
 func splitDDLs(mode GeneratorMode, str string) []string {
 	ddls := []string{}
-	start := 0
+	ddl := ""
+	start := 0 // of what's not in ddl yet
 	for i := 0; i < len(str); i++ {
 		length := 0 // what comes after str[i] up to the end of the string, name or comment it begins
 		rest := str[i+1:]
 		switch c := str[i]; {
 		case c == ';':
-			ddls = append(ddls, str[start:i])
+			ddls = append(ddls, ddl+str[start:i])
+			ddl = ""
 			start = i + 1
 		case c == '\'' || c == '"' || c == '`':
 			length = quotedLength(rest, c, c != '`')
@@ -475,6 +477,10 @@ func splitDDLs(mode GeneratorMode, str string) []string {
 			length = quotedLength(rest, ']', false)
 		case c == '#' && mode == GeneratorModeMysql || c == '-' && strings.HasPrefix(rest, "-"):
 			length = strings.Index(rest+"\n", "\n")
+			if c == '-' && (i == 0 || str[i-1] == '\n') {
+				ddl += str[start:i]
+				start = i + 1 + length
+			}
 		case c == '/' && strings.HasPrefix(rest, "*"):
 			if end := strings.Index(rest[1:], "*/"); end >= 0 {
 				length = end + 3
@@ -484,7 +490,7 @@ func splitDDLs(mode GeneratorMode, str string) []string {
 			i += length
 		}
 	}
-	return append(ddls, str[start:])
+	return append(ddls, ddl+str[start:])
 }
 
 // Length of a quoted string up to and including the closing quote, or 0 if there's none.
@@ -503,9 +509,6 @@ func quotedLength(str string, quote byte, escape bool) int {
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
-	re := regexp.MustCompilePOSIX("^--.*")
-	str = re.ReplaceAllString(str, "")
-
 	result := []DDL{}
 
 	for _, ddl := range splitDDLs(mode, str) {
-- 
2.43.0


From eb651a70128f434c6b2c2a50304aa26f2d2c53c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 47/84] fix: read defaults of all types from a Postgres dump

Postgres shows a default with a cast to the type of its column, but only a
few types were known there, so that sqldef refused a database with a default
of, say, -1 or '{}'.
---
 sqlparser/parser.go | 4895 ++++++++++++++++++++++---------------------
 sqlparser/parser.y  |    4 +-
 2 files changed, 2452 insertions(+), 2447 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 9523c83..076513b 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -736,468 +736,416 @@ var yyExca = [...]int{
 	121, 104,
 	-2, 94,
 	-1, 36,
-	153, 416,
-	154, 416,
-	-2, 406,
+	153, 414,
+	154, 414,
+	-2, 404,
 	-1, 272,
-	109, 749,
-	-2, 745,
+	109, 747,
+	-2, 743,
 	-1, 273,
-	109, 750,
-	-2, 746,
+	109, 748,
+	-2, 744,
 	-1, 343,
-	80, 943,
+	80, 941,
 	-2, 58,
 	-1, 344,
-	80, 894,
+	80, 892,
 	-2, 59,
 	-1, 349,
-	80, 873,
-	-2, 716,
+	80, 871,
+	-2, 714,
 	-1, 351,
-	80, 917,
-	-2, 718,
+	80, 915,
+	-2, 716,
 	-1, 652,
 	51, 41,
 	53, 41,
 	-2, 43,
 	-1, 797,
-	109, 752,
-	-2, 748,
+	109, 750,
+	-2, 746,
 	-1, 1039,
 	5, 28,
-	-2, 551,
+	-2, 549,
 	-1, 1064,
 	5, 27,
-	-2, 690,
+	-2, 688,
 	-1, 1165,
 	5, 27,
 	-2, 64,
 	-1, 1382,
 	5, 28,
-	-2, 691,
-	-1, 1465,
+	-2, 689,
+	-1, 1463,
 	5, 27,
-	-2, 693,
-	-1, 1590,
+	-2, 691,
+	-1, 1587,
 	5, 28,
-	-2, 694,
+	-2, 692,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14695
+const yyLast = 14791
 
 var yyAct = [...]int{
-	273, 1580, 1515, 1067, 1478, 974, 1475, 270, 729, 861,
-	498, 1597, 1098, 579, 1388, 1519, 1401, 1252, 1542, 578,
-	3, 1156, 1279, 464, 773, 302, 1280, 879, 1167, 1253,
-	1101, 276, 644, 903, 646, 89, 909, 277, 89, 1249,
-	1129, 902, 969, 1083, 982, 251, 862, 822, 923, 1123,
-	833, 53, 1031, 830, 266, 245, 348, 1225, 66, 735,
-	1072, 964, 89, 89, 353, 1153, 849, 250, 662, 353,
-	952, 918, 353, 353, 345, 799, 511, 517, 89, 462,
-	89, 648, 661, 858, 279, 633, 89, 942, 523, 330,
-	342, 275, 602, 1013, 328, 335, 260, 339, 337, 246,
-	247, 248, 249, 607, 531, 608, 1137, 939, 545, 52,
-	264, 555, 1661, 1305, 936, 832, 555, 1622, 1407, 329,
-	465, 466, 1292, 593, 1293, 1654, 1414, 1695, 1638, 1691,
-	86, 1588, 1535, 544, 543, 553, 554, 546, 547, 548,
-	549, 550, 551, 552, 545, 1121, 333, 555, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 338, 1547,
-	555, 1157, 1158, 1682, 975, 1626, 1647, 1637, 1244, 1373,
-	1611, 1376, 1546, 477, 1587, 478, 475, 1091, 1275, 1276,
-	1090, 485, 663, 1092, 664, 938, 1274, 539, 892, 542,
-	506, 1136, 48, 26, 27, 557, 558, 559, 560, 561,
-	562, 563, 898, 540, 541, 538, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 893, 894,
-	555, 1431, 1430, 1133, 89, 1135, 1134, 764, 353, 353,
-	353, 353, 1139, 353, 765, 941, 953, 1506, 853, 1325,
+	273, 1539, 1512, 1476, 1473, 1577, 1067, 729, 1516, 974,
+	579, 277, 498, 1252, 898, 1098, 937, 302, 1101, 1388,
+	1594, 1280, 607, 879, 773, 1253, 903, 861, 1401, 464,
+	335, 1167, 952, 608, 251, 89, 674, 270, 89, 578,
+	3, 1249, 276, 1123, 1279, 646, 969, 909, 1129, 982,
+	923, 245, 902, 833, 53, 862, 822, 1225, 1083, 1031,
+	348, 66, 89, 89, 353, 86, 735, 830, 964, 353,
+	1156, 1153, 353, 353, 918, 1072, 345, 849, 89, 799,
+	89, 644, 662, 511, 517, 661, 89, 250, 858, 648,
+	462, 633, 342, 338, 275, 246, 247, 248, 249, 523,
+	602, 260, 339, 531, 337, 939, 1013, 1137, 477, 593,
+	478, 936, 52, 264, 1658, 1305, 485, 545, 329, 1373,
+	555, 555, 330, 1619, 465, 466, 1414, 279, 1407, 548,
+	549, 550, 551, 552, 545, 1293, 539, 555, 542, 1121,
+	1292, 1692, 1635, 328, 557, 558, 559, 560, 561, 562,
+	563, 1688, 540, 541, 538, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 1585, 1543, 555,
+	1532, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 938, 496, 555, 1544, 1644, 1651, 333,
+	1679, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 1372, 510, 555, 1157, 1158, 975, 1623,
+	1634, 1584, 1244, 832, 1608, 1376, 475, 301, 1275, 1276,
+	1091, 1274, 1609, 1090, 89, 663, 1092, 664, 353, 353,
+	353, 353, 892, 353, 506, 48, 26, 27, 893, 894,
 	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1324, 1365, 555, 546, 547, 548, 549,
-	550, 551, 552, 545, 1363, 1454, 555, 353, 943, 244,
-	548, 549, 550, 551, 552, 545, 520, 965, 555, 1575,
-	1517, 737, 738, 1653, 1494, 1655, 491, 1565, 570, 571,
-	572, 573, 574, 575, 576, 465, 466, 1335, 1336, 1680,
-	736, 1125, 1126, 1127, 502, 503, 519, 514, 518, 1130,
-	1128, 299, 300, 84, 80, 81, 82, 556, 1690, 487,
-	1581, 1203, 556, 859, 536, 1340, 1582, 919, 89, 1462,
-	1372, 510, 1409, 1536, 1408, 89, 89, 89, 1115, 1114,
-	1341, 353, 920, 1404, 1419, 1286, 1103, 353, 1369, 510,
-	493, 345, 495, 556, 1418, 1669, 1349, 1526, 580, 566,
-	1421, 880, 882, 1287, 510, 480, 556, 591, 544, 543,
+	551, 552, 545, 1139, 487, 555, 764, 1429, 1428, 1369,
+	510, 941, 953, 765, 1452, 491, 943, 353, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	492, 494, 555, 1420, 470, 78, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 1295, 1646,
-	555, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1547, 1439, 555, 1586, 467, 966, 333,
-	953, 737, 738, 628, 946, 743, 556, 1120, 77, 1082,
-	78, 1081, 652, 1108, 476, 653, 881, 1080, 659, 595,
-	596, 597, 598, 599, 600, 601, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 727, 223,
-	555, 556, 301, 49, 1106, 79, 83, 1204, 89, 1402,
-	1403, 1405, 556, 1200, 1686, 89, 1540, 89, 353, 1385,
-	89, 1132, 1136, 89, 556, 568, 569, 89, 1212, 353,
-	353, 353, 353, 353, 353, 353, 353, 1047, 919, 1025,
-	771, 535, 490, 353, 353, 486, 900, 899, 89, 768,
-	1008, 57, 528, 920, 1133, 1319, 1135, 1134, 530, 1558,
-	1208, 850, 1557, 353, 529, 528, 347, 89, 530, 919,
-	1556, 468, 1555, 353, 472, 473, 59, 60, 61, 62,
-	63, 530, 1554, 752, 920, 798, 796, 1553, 807, 808,
+	853, 347, 555, 1325, 1324, 1365, 468, 1363, 244, 472,
+	473, 84, 80, 81, 82, 1572, 520, 544, 543, 553,
+	554, 546, 547, 548, 549, 550, 551, 552, 545, 519,
+	1514, 555, 1613, 465, 466, 965, 1492, 1032, 570, 571,
+	572, 573, 574, 575, 576, 1615, 556, 556, 89, 493,
+	1687, 495, 1404, 736, 1136, 89, 89, 89, 737, 738,
+	1562, 353, 1677, 556, 1610, 1578, 1650, 353, 1652, 1303,
+	1335, 1336, 1203, 345, 1125, 1126, 1127, 859, 628, 492,
+	494, 1579, 1130, 1128, 299, 300, 1133, 652, 1135, 1134,
+	1460, 1533, 57, 502, 503, 556, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 1409, 1340, 555,
+	919, 556, 1408, 1115, 1114, 1295, 1103, 59, 60, 61,
+	62, 63, 566, 1341, 1286, 920, 1666, 1349, 1437, 1544,
+	1523, 556, 1287, 499, 500, 501, 480, 504, 470, 953,
+	1643, 1120, 946, 78, 508, 595, 596, 597, 598, 599,
+	600, 601, 546, 547, 548, 549, 550, 551, 552, 545,
+	743, 653, 555, 659, 83, 347, 347, 347, 347, 467,
+	347, 75, 1200, 1583, 737, 738, 966, 347, 1402, 1403,
+	1405, 556, 333, 1108, 1106, 880, 882, 1082, 89, 1611,
+	1612, 1614, 1616, 1617, 77, 89, 78, 89, 353, 1081,
+	89, 490, 1080, 89, 533, 727, 680, 89, 556, 353,
+	353, 353, 353, 353, 353, 353, 353, 676, 728, 70,
+	73, 476, 223, 353, 353, 739, 49, 740, 89, 79,
+	744, 1204, 1683, 747, 71, 74, 1537, 556, 1008, 768,
+	568, 569, 1385, 353, 1212, 1047, 528, 89, 919, 919,
+	1025, 72, 68, 353, 1132, 1136, 771, 535, 766, 530,
+	881, 486, 530, 920, 920, 900, 899, 752, 796, 1319,
+	1201, 1555, 1199, 1044, 776, 1554, 800, 785, 347, 529,
+	528, 1208, 1553, 1552, 667, 1202, 1248, 1133, 510, 1135,
+	1134, 1551, 1550, 1549, 1246, 798, 530, 353, 807, 808,
 	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 728, 800, 776, 1320, 680, 1552, 676,
-	739, 1201, 740, 1199, 1550, 744, 1332, 353, 747, 806,
-	750, 1070, 665, 786, 787, 1246, 1202, 1493, 556, 1009,
-	1100, 732, 797, 804, 805, 803, 1207, 469, 1111, 75,
-	479, 837, 850, 766, 1054, 1044, 556, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 778, 1598,
-	555, 556, 785, 801, 842, 845, 525, 76, 89, 795,
-	851, 89, 89, 89, 89, 89, 580, 793, 1599, 840,
-	841, 510, 1496, 89, 1672, 1110, 89, 70, 73, 825,
-	89, 1492, 1671, 529, 528, 89, 89, 529, 528, 353,
-	827, 828, 71, 74, 1100, 837, 556, 863, 471, 345,
-	530, 474, 353, 1100, 530, 1652, 1651, 855, 847, 72,
-	68, 1650, 904, 482, 483, 484, 1099, 887, 327, 1600,
-	347, 347, 347, 347, 1551, 347, 529, 528, 838, 839,
-	50, 1596, 347, 1248, 846, 789, 791, 792, 1100, 1504,
-	802, 790, 1433, 530, 1432, 333, 333, 333, 333, 333,
-	897, 865, 866, 860, 868, 1301, 1648, 876, 353, 533,
-	333, 884, 353, 1162, 353, 89, 885, 89, 854, 333,
-	856, 857, 89, 890, 89, 774, 775, 89, 353, 889,
-	864, 888, 907, 867, 1022, 1023, 1024, 1424, 1160, 509,
-	1140, 1140, 954, 955, 956, 957, 463, 971, 1649, 521,
-	944, 945, 947, 948, 949, 1461, 950, 951, 823, 1043,
-	824, 1042, 796, 967, 968, 1370, 1423, 1428, 1351, 1548,
-	1140, 529, 528, 960, 961, 962, 1154, 963, 529, 528,
-	69, 1117, 1290, 347, 1289, 1288, 1180, 1109, 530, 667,
-	1093, 1226, 1028, 1029, 1030, 530, 21, 770, 1573, 1699,
-	1469, 1688, 1398, 1681, 1011, 1012, 556, 518, 797, 800,
-	981, 919, 986, 1398, 1660, 510, 914, 1003, 913, 1004,
-	915, 916, 1005, 977, 1228, 917, 920, 1398, 1659, 1568,
-	1014, 826, 769, 1015, 1398, 1645, 1567, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 529,
-	528, 555, 255, 1573, 1644, 1511, 1181, 1177, 1064, 1027,
-	1182, 1179, 1178, 749, 353, 74, 530, 89, 801, 1085,
-	1038, 1087, 1641, 1640, 1633, 510, 1183, 1398, 1630, 1021,
-	1230, 748, 1176, 353, 1235, 1055, 1229, 1469, 1578, 1398,
-	1569, 1227, 733, 904, 353, 1053, 731, 1233, 488, 1086,
-	1469, 1502, 1469, 510, 1510, 353, 1469, 1470, 1077, 481,
-	1231, 1232, 1398, 1397, 89, 463, 1095, 1271, 510, 1505,
-	347, 1384, 510, 1425, 1116, 1328, 1327, 1036, 1234, 1236,
-	656, 347, 347, 347, 347, 347, 347, 347, 347, 1416,
-	1088, 1322, 1323, 1051, 1250, 347, 347, 1068, 1131, 1322,
-	1321, 333, 1037, 510, 630, 510, 353, 835, 510, 672,
-	671, 1312, 1574, 1159, 1573, 780, 1168, 1104, 1105, 1107,
-	657, 1069, 655, 1165, 1068, 533, 23, 54, 347, 835,
-	629, 635, 638, 639, 640, 636, 353, 637, 641, 89,
-	89, 1073, 1074, 1380, 50, 1141, 1142, 89, 1144, 1145,
-	1146, 630, 1464, 1215, 630, 1155, 353, 1415, 1161, 1069,
-	1331, 1049, 630, 1046, 1143, 1037, 1217, 1435, 1434, 829,
-	1221, 1222, 50, 1173, 1326, 1094, 1172, 1174, 23, 843,
-	843, 891, 1037, 1239, 1240, 843, 1242, 1243, 1241, 292,
-	291, 294, 295, 296, 297, 1037, 353, 353, 293, 298,
-	1068, 1062, 1251, 1048, 1063, 1045, 23, 556, 1612, 658,
-	1218, 1219, 886, 772, 655, 1256, 257, 1692, 1224, 1254,
-	1273, 1237, 843, 1658, 50, 353, 1635, 353, 353, 730,
-	863, 1571, 1238, 1245, 797, 904, 863, 904, 1570, 1247,
-	1259, 1562, 1213, 1561, 1523, 1261, 1503, 1448, 1220, 1260,
-	943, 347, 50, 970, 1262, 1263, 1311, 1310, 1264, 1308,
-	1278, 1266, 50, 1291, 347, 1298, 1277, 1272, 544, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1265, 965, 555, 1122, 1296, 1147, 1131, 1149, 1150, 1151,
-	1152, 1294, 1163, 1164, 89, 353, 1097, 959, 1616, 1073,
-	1074, 1079, 89, 958, 1302, 65, 1543, 353, 1436, 1250,
-	1171, 1618, 1076, 746, 734, 507, 353, 303, 47, 784,
-	972, 1078, 873, 870, 347, 869, 347, 874, 89, 875,
-	1613, 639, 640, 1666, 353, 635, 638, 639, 640, 636,
-	347, 637, 641, 353, 1315, 871, 89, 1338, 1353, 1636,
-	872, 1307, 1309, 1217, 261, 262, 1211, 1010, 1356, 524,
-	1664, 1342, 1020, 1019, 347, 47, 512, 1449, 1148, 670,
-	1344, 1350, 522, 256, 489, 979, 1300, 513, 1354, 334,
-	1378, 774, 775, 745, 1347, 1446, 1299, 1170, 973, 1329,
-	643, 258, 259, 1352, 524, 1445, 353, 1337, 353, 353,
-	353, 89, 353, 1361, 1334, 1285, 252, 1018, 353, 1656,
-	777, 1529, 1391, 1392, 1393, 1017, 253, 54, 904, 1528,
-	1452, 1379, 1069, 1346, 983, 984, 985, 1284, 1283, 353,
-	333, 1406, 526, 1377, 1560, 1394, 1387, 1559, 1411, 1537,
-	580, 1095, 1113, 1413, 1358, 1359, 1410, 1360, 1396, 767,
-	56, 1362, 58, 1364, 1175, 1614, 1615, 1617, 1619, 1620,
-	1521, 7, 353, 353, 1339, 1131, 1522, 6, 834, 836,
-	353, 654, 1168, 904, 1313, 1314, 1084, 1316, 1317, 1318,
-	353, 51, 1412, 1417, 852, 1520, 5, 1, 556, 1441,
-	1437, 1442, 1443, 1444, 1518, 347, 1438, 1566, 1119, 1399,
-	1400, 1564, 67, 1440, 1625, 1572, 1102, 1455, 1456, 1304,
-	1457, 1458, 1459, 1333, 1169, 353, 353, 1112, 1184, 976,
-	1166, 991, 1427, 1579, 1429, 1593, 1476, 911, 901, 353,
-	461, 64, 1549, 1465, 878, 912, 1254, 910, 908, 353,
-	1463, 673, 937, 1138, 1491, 497, 497, 497, 497, 1495,
-	497, 940, 1474, 679, 1490, 1489, 677, 497, 678, 675,
-	1453, 681, 674, 1499, 231, 353, 353, 89, 347, 1497,
-	353, 1507, 340, 642, 47, 666, 527, 1198, 1197, 353,
-	987, 1206, 763, 1007, 505, 233, 564, 1512, 1016, 565,
-	1089, 346, 567, 1524, 1621, 1257, 516, 1527, 347, 1451,
-	353, 1052, 590, 848, 278, 788, 290, 496, 287, 289,
-	288, 1544, 1538, 779, 1061, 537, 1539, 268, 347, 577,
-	1254, 581, 582, 583, 584, 585, 586, 587, 588, 589,
-	332, 592, 594, 594, 594, 594, 594, 594, 594, 594,
-	347, 622, 623, 624, 625, 626, 634, 632, 1426, 631,
-	1075, 1071, 645, 331, 353, 843, 1214, 1375, 1258, 1084,
-	1534, 843, 1514, 783, 1576, 25, 55, 263, 19, 18,
-	17, 353, 20, 1584, 353, 16, 1577, 1589, 353, 15,
-	14, 1594, 29, 13, 12, 1563, 11, 347, 10, 347,
-	1281, 9, 353, 353, 1608, 8, 1601, 1602, 1603, 1604,
-	1605, 353, 353, 4, 353, 863, 1606, 1607, 254, 22,
-	2, 0, 353, 1583, 580, 1609, 1034, 1631, 0, 0,
-	1035, 1629, 0, 1623, 1624, 0, 0, 1039, 1040, 1041,
-	0, 0, 0, 0, 0, 1479, 1050, 0, 0, 0,
-	0, 1056, 0, 0, 1057, 1058, 1059, 1060, 1481, 1642,
-	1643, 0, 0, 0, 0, 1657, 0, 1330, 0, 1628,
-	1508, 0, 1509, 0, 0, 1663, 353, 1662, 0, 1343,
-	353, 0, 0, 0, 0, 0, 1668, 0, 1345, 0,
-	0, 0, 1670, 0, 0, 0, 0, 89, 1665, 353,
-	0, 0, 0, 1677, 1675, 497, 1348, 1678, 0, 0,
-	89, 0, 0, 1676, 0, 347, 497, 497, 497, 497,
-	497, 497, 497, 497, 1689, 0, 1480, 353, 0, 1685,
-	497, 497, 0, 353, 1687, 1696, 0, 1693, 0, 0,
-	0, 0, 1697, 0, 0, 0, 499, 500, 501, 0,
-	504, 0, 0, 0, 0, 0, 1679, 508, 1482, 1483,
-	1484, 1485, 1486, 1487, 1488, 0, 0, 0, 1389, 0,
-	1389, 1389, 1389, 0, 1395, 0, 0, 0, 0, 0,
-	347, 0, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 1033, 47, 555, 0, 0, 0,
-	0, 1389, 0, 0, 0, 1684, 0, 0, 0, 581,
-	936, 0, 0, 0, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 0, 997, 555, 0,
-	0, 1032, 925, 0, 347, 347, 1223, 0, 0, 0,
-	996, 0, 1447, 0, 0, 0, 932, 0, 921, 0,
-	0, 0, 1450, 0, 922, 0, 0, 0, 334, 334,
-	334, 334, 334, 0, 1479, 0, 0, 1001, 0, 0,
-	0, 0, 0, 645, 0, 883, 995, 1481, 0, 0,
-	0, 0, 334, 1270, 0, 1477, 0, 1467, 1468, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1281, 0, 0, 0, 0, 515, 928, 0, 924,
-	933, 1498, 0, 0, 0, 0, 930, 929, 0, 0,
-	0, 0, 0, 0, 0, 992, 989, 990, 0, 988,
-	0, 0, 0, 0, 0, 0, 0, 1281, 1513, 0,
-	0, 87, 1516, 0, 243, 1480, 0, 0, 0, 1303,
-	0, 1389, 0, 0, 1125, 1126, 1127, 999, 1002, 497,
-	0, 497, 1130, 1128, 299, 300, 267, 0, 87, 87,
-	0, 0, 1541, 0, 0, 497, 0, 1482, 1483, 1484,
-	1485, 1486, 1487, 1488, 87, 0, 87, 0, 0, 0,
-	0, 0, 87, 0, 0, 742, 0, 0, 0, 0,
-	0, 0, 556, 0, 0, 0, 753, 754, 755, 756,
-	757, 758, 759, 760, 0, 0, 0, 0, 1355, 0,
-	761, 762, 994, 926, 1026, 1357, 1281, 0, 0, 927,
-	0, 0, 0, 0, 556, 0, 0, 1366, 1367, 1368,
-	843, 0, 1371, 1591, 603, 0, 1592, 0, 0, 0,
-	1595, 0, 0, 993, 0, 1381, 1382, 1383, 0, 1386,
-	0, 0, 0, 0, 1516, 1281, 0, 0, 0, 0,
-	0, 0, 0, 1281, 1281, 0, 1627, 605, 0, 934,
-	0, 935, 0, 1124, 1634, 0, 1065, 1066, 1125, 1126,
-	1127, 0, 998, 0, 931, 0, 1130, 1128, 299, 300,
-	0, 0, 0, 0, 1545, 0, 1422, 0, 1000, 0,
-	0, 0, 0, 0, 334, 0, 0, 0, 610, 611,
-	612, 613, 614, 615, 616, 617, 618, 619, 0, 0,
-	87, 0, 0, 0, 1132, 1136, 0, 0, 1281, 606,
-	0, 0, 1667, 0, 0, 0, 0, 620, 604, 1190,
-	0, 0, 0, 0, 609, 0, 0, 0, 0, 0,
-	0, 1389, 0, 0, 0, 0, 0, 1133, 0, 1135,
-	1134, 0, 0, 0, 0, 1460, 0, 0, 229, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 347,
-	0, 1471, 1472, 1473, 0, 1516, 0, 0, 0, 0,
-	0, 47, 239, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 1501, 0, 1191, 0, 0, 0, 0, 1193,
-	1186, 1187, 0, 1194, 1189, 1188, 0, 621, 1196, 1192,
-	0, 0, 0, 497, 87, 0, 0, 0, 0, 1195,
-	0, 87, 650, 87, 0, 1185, 0, 0, 0, 978,
-	0, 980, 0, 224, 0, 1530, 1531, 1532, 1533, 226,
-	0, 0, 0, 0, 0, 1006, 232, 228, 1132, 1136,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1255, 0, 47, 0, 0, 230, 0, 0, 234,
-	0, 1133, 0, 1135, 1134, 0, 0, 0, 1267, 1268,
-	1269, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1585, 0, 0, 0, 0, 1590,
-	0, 0, 0, 0, 1297, 23, 24, 48, 26, 27,
-	0, 0, 0, 0, 0, 0, 0, 225, 0, 0,
-	1306, 0, 0, 1610, 42, 0, 0, 0, 28, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 1632,
-	0, 87, 0, 87, 0, 0, 87, 37, 0, 87,
-	0, 50, 0, 751, 0, 227, 0, 235, 236, 237,
-	238, 242, 0, 0, 0, 0, 241, 240, 0, 0,
+	819, 820, 821, 750, 850, 556, 797, 1009, 842, 845,
+	1320, 529, 528, 1547, 851, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 1332, 530, 555,
+	479, 837, 1070, 778, 806, 1043, 665, 1042, 89, 1494,
+	521, 89, 89, 89, 89, 89, 793, 1207, 804, 805,
+	803, 863, 795, 89, 529, 528, 89, 850, 556, 1054,
+	89, 1100, 69, 774, 775, 89, 89, 825, 860, 353,
+	1100, 530, 742, 827, 828, 510, 801, 732, 1490, 1491,
+	1099, 345, 353, 753, 754, 755, 756, 757, 758, 759,
+	760, 529, 528, 1669, 904, 837, 888, 761, 762, 847,
+	1100, 855, 1100, 525, 1668, 347, 509, 1649, 530, 529,
+	528, 529, 528, 482, 483, 484, 347, 347, 347, 347,
+	347, 347, 347, 347, 76, 469, 530, 1111, 530, 1595,
+	347, 347, 1648, 1647, 954, 955, 956, 957, 353, 1022,
+	1023, 1024, 353, 876, 353, 89, 887, 89, 1596, 884,
+	780, 885, 89, 1597, 89, 1645, 890, 89, 353, 864,
+	533, 889, 867, 347, 865, 866, 50, 868, 333, 333,
+	333, 333, 333, 907, 1110, 981, 802, 986, 1593, 1502,
+	1431, 971, 1003, 333, 1004, 327, 1548, 1005, 1430, 789,
+	791, 792, 333, 1301, 796, 790, 471, 1646, 1422, 474,
+	967, 968, 1140, 1477, 829, 1421, 838, 839, 770, 1140,
+	1459, 823, 846, 824, 843, 843, 1479, 1162, 1160, 1140,
+	843, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 800, 1426, 555, 1351, 556, 1154, 1117, 1545, 21,
+	1570, 1696, 797, 769, 1467, 1685, 854, 1290, 856, 857,
+	1398, 1678, 1028, 1029, 1030, 1398, 1657, 843, 1398, 1656,
+	529, 528, 1398, 1642, 1570, 1641, 997, 1014, 1289, 1288,
+	1015, 1109, 1125, 1126, 1127, 1638, 1637, 530, 1093, 996,
+	1130, 1128, 299, 300, 1478, 977, 347, 1630, 510, 1398,
+	1627, 1467, 1575, 1027, 353, 255, 826, 89, 749, 347,
+	1398, 1566, 1085, 748, 1087, 733, 1001, 731, 1064, 1467,
+	1500, 1467, 510, 353, 656, 995, 1480, 1481, 1482, 1483,
+	1484, 1485, 1486, 488, 353, 904, 978, 481, 980, 1467,
+	1468, 1398, 1397, 1271, 510, 353, 1053, 1384, 510, 1095,
+	463, 801, 1006, 510, 89, 1328, 1327, 1322, 1323, 1322,
+	1321, 1037, 510, 1077, 657, 972, 655, 1116, 1571, 347,
+	1570, 347, 630, 510, 992, 989, 990, 1565, 988, 835,
+	510, 672, 671, 1564, 1508, 347, 1507, 1147, 1086, 1149,
+	1150, 1151, 1152, 1503, 1088, 1423, 353, 1141, 1142, 1131,
+	1144, 1145, 1146, 1416, 1312, 1068, 999, 1002, 1168, 347,
+	1104, 1105, 1107, 1250, 835, 1069, 1068, 1021, 1477, 54,
+	1069, 886, 1215, 655, 1380, 630, 353, 1049, 23, 89,
+	89, 1479, 1415, 1165, 333, 50, 1046, 89, 292, 291,
+	294, 295, 296, 297, 629, 1331, 353, 293, 298, 556,
+	23, 1155, 1159, 1475, 1462, 1161, 630, 1037, 1217, 1173,
+	1326, 1068, 1132, 1136, 1037, 1036, 23, 1213, 630, 1048,
+	1174, 994, 1094, 1172, 50, 784, 891, 942, 1045, 1180,
+	1241, 1051, 1433, 1432, 257, 1037, 353, 353, 658, 1062,
+	1221, 1222, 1063, 772, 863, 1133, 50, 1135, 1134, 1478,
+	863, 1254, 993, 1239, 1240, 1689, 1242, 1243, 1219, 1655,
+	1251, 1224, 50, 1273, 1218, 353, 1632, 353, 353, 1568,
+	1237, 1084, 1238, 1567, 1559, 1256, 1245, 904, 797, 904,
+	50, 1480, 1481, 1482, 1483, 1484, 1485, 1486, 1558, 1520,
+	347, 998, 1260, 1278, 1261, 1259, 1501, 1446, 943, 1181,
+	1177, 1102, 970, 1182, 1179, 1178, 1311, 1000, 74, 1291,
+	1272, 1310, 1112, 1308, 1298, 1265, 965, 1277, 1122, 1183,
+	1163, 1164, 1079, 1097, 959, 1176, 1313, 1314, 958, 1316,
+	1317, 1318, 1296, 1294, 89, 353, 65, 1131, 1302, 1073,
+	1074, 730, 89, 1540, 1434, 1250, 1315, 353, 635, 638,
+	639, 640, 636, 1171, 637, 641, 353, 1076, 1073, 1074,
+	1205, 746, 734, 347, 1329, 507, 873, 875, 89, 639,
+	640, 874, 1337, 1078, 353, 635, 638, 639, 640, 636,
+	871, 637, 641, 353, 870, 872, 89, 777, 869, 261,
+	262, 1353, 1338, 347, 1663, 1217, 1633, 1342, 1346, 1211,
+	1010, 524, 1661, 1020, 1019, 1148, 1344, 512, 1542, 1300,
+	1124, 670, 489, 347, 522, 1125, 1126, 1127, 513, 1378,
+	1347, 1447, 1350, 1130, 1128, 299, 300, 979, 1356, 774,
+	775, 745, 1444, 1299, 1170, 347, 353, 973, 353, 353,
+	353, 89, 353, 643, 524, 834, 836, 1361, 353, 1443,
+	843, 258, 259, 1258, 1084, 1334, 843, 1391, 1392, 1393,
+	904, 852, 1370, 1379, 1018, 1387, 1285, 1354, 252, 353,
+	1653, 1526, 1017, 253, 1095, 54, 1439, 1396, 1440, 1441,
+	1442, 1411, 347, 1406, 347, 1281, 1394, 1525, 1413, 1450,
+	1438, 1069, 1410, 983, 984, 985, 1284, 1283, 680, 526,
+	1424, 1556, 353, 353, 1557, 266, 1534, 1113, 767, 676,
+	353, 878, 1419, 333, 1168, 904, 1131, 1417, 56, 58,
+	353, 1518, 7, 1175, 1425, 1339, 1427, 1519, 6, 1436,
+	1517, 5, 654, 1435, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 463, 51, 555, 1,
+	1515, 1563, 1330, 1119, 1561, 353, 353, 67, 1622, 1569,
+	1304, 1333, 1451, 1169, 1343, 1184, 976, 1166, 1254, 353,
+	991, 303, 47, 1345, 1576, 1590, 1461, 1453, 1454, 353,
+	1455, 1456, 1457, 1474, 911, 901, 461, 1489, 1472, 64,
+	1487, 1348, 1493, 1463, 1488, 1132, 1136, 1495, 1546, 912,
+	347, 910, 908, 353, 353, 89, 1504, 673, 353, 1497,
+	1505, 919, 1506, 1138, 940, 679, 914, 353, 913, 47,
+	915, 916, 677, 678, 675, 917, 920, 256, 1133, 681,
+	1135, 1134, 231, 334, 340, 1511, 1521, 642, 353, 666,
+	527, 1198, 1197, 987, 1206, 763, 1535, 1509, 1541, 1007,
+	1254, 505, 233, 1389, 564, 1389, 1389, 1389, 1016, 1395,
+	1089, 346, 1618, 1257, 516, 347, 1524, 1449, 1052, 590,
+	848, 278, 788, 290, 1536, 287, 289, 288, 779, 1061,
+	537, 268, 332, 626, 634, 632, 1389, 631, 1075, 1071,
+	331, 353, 1214, 1034, 1573, 1375, 1531, 1035, 783, 25,
+	55, 263, 19, 18, 1039, 1040, 1041, 1581, 353, 17,
+	20, 353, 16, 1050, 15, 353, 863, 1591, 1056, 347,
+	347, 1057, 1058, 1059, 1060, 14, 29, 1445, 13, 353,
+	353, 1605, 1586, 12, 11, 1574, 10, 1448, 353, 353,
+	9, 353, 1598, 1599, 1600, 1601, 1602, 8, 4, 353,
+	254, 1626, 22, 1628, 556, 1603, 1604, 2, 514, 518,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 1465, 1466, 1606, 536, 0, 0, 0, 0,
+	0, 0, 1620, 1621, 0, 0, 1281, 0, 0, 1639,
+	1640, 0, 0, 0, 0, 1654, 1496, 0, 0, 497,
+	497, 497, 497, 353, 497, 0, 1660, 353, 1659, 580,
+	0, 497, 1665, 0, 0, 0, 0, 1667, 591, 0,
+	1281, 1510, 0, 0, 89, 1513, 353, 0, 47, 1672,
+	0, 0, 1675, 1674, 1389, 0, 0, 89, 0, 1682,
+	0, 0, 0, 565, 1684, 1673, 567, 1662, 0, 1686,
+	0, 0, 0, 0, 353, 1538, 0, 0, 0, 0,
+	353, 0, 1693, 0, 0, 0, 1690, 1681, 0, 0,
+	0, 0, 0, 577, 0, 581, 582, 583, 584, 585,
+	586, 587, 588, 589, 0, 592, 594, 594, 594, 594,
+	594, 594, 594, 594, 0, 622, 623, 624, 625, 1694,
+	0, 0, 0, 1223, 0, 0, 645, 0, 1281, 0,
+	944, 945, 947, 948, 949, 0, 950, 951, 0, 0,
+	0, 0, 843, 0, 0, 1588, 0, 0, 1589, 0,
+	0, 0, 1592, 960, 961, 962, 0, 963, 0, 936,
+	0, 0, 0, 0, 0, 0, 1513, 1281, 0, 0,
+	1270, 0, 0, 0, 0, 1281, 1281, 0, 1624, 0,
+	0, 925, 0, 0, 0, 0, 1631, 1220, 0, 0,
+	0, 0, 0, 0, 0, 932, 0, 921, 0, 0,
+	0, 0, 0, 922, 1033, 0, 0, 544, 543, 553,
+	554, 546, 547, 548, 549, 550, 551, 552, 545, 0,
+	0, 555, 0, 0, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 515, 0, 555, 0,
+	1281, 0, 0, 0, 1664, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 786, 787, 928, 0, 924, 933,
+	0, 0, 0, 1389, 0, 930, 929, 0, 0, 497,
+	0, 87, 0, 0, 243, 0, 0, 0, 0, 0,
+	497, 497, 497, 497, 497, 497, 497, 497, 0, 0,
+	0, 347, 0, 0, 497, 497, 267, 1513, 87, 87,
+	0, 0, 0, 0, 0, 1355, 603, 580, 0, 0,
+	840, 841, 1357, 0, 87, 0, 87, 0, 0, 0,
+	0, 0, 87, 0, 1366, 1367, 1368, 0, 0, 1371,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 605,
+	0, 0, 1381, 1382, 1383, 0, 1386, 544, 543, 553,
+	554, 546, 547, 548, 549, 550, 551, 552, 545, 47,
+	0, 555, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 926, 581, 0, 0, 0, 0, 927, 0,
+	610, 611, 612, 613, 614, 615, 616, 617, 618, 619,
+	0, 897, 0, 1420, 1143, 0, 23, 24, 48, 26,
+	27, 606, 0, 0, 0, 0, 0, 0, 0, 620,
+	604, 0, 0, 0, 0, 42, 609, 0, 1226, 28,
+	0, 0, 334, 334, 334, 334, 334, 556, 934, 0,
+	935, 0, 0, 0, 0, 0, 0, 645, 37, 883,
+	0, 0, 50, 931, 556, 0, 334, 0, 0, 0,
+	0, 1228, 0, 0, 0, 0, 0, 0, 0, 0,
+	87, 0, 1458, 0, 0, 0, 0, 0, 0, 229,
+	0, 0, 0, 0, 0, 0, 0, 0, 1469, 1470,
+	1471, 0, 0, 0, 0, 0, 0, 0, 0, 621,
+	0, 0, 0, 239, 0, 1011, 1012, 0, 518, 1499,
+	0, 0, 30, 31, 33, 32, 35, 1230, 0, 0,
+	0, 1235, 0, 1229, 0, 0, 0, 0, 1227, 0,
+	0, 1190, 0, 497, 1233, 497, 36, 43, 44, 0,
+	0, 45, 46, 34, 0, 0, 0, 1231, 1232, 497,
+	1527, 1528, 1529, 1530, 224, 0, 0, 0, 0, 0,
+	226, 0, 0, 0, 0, 1234, 1236, 232, 228, 0,
+	0, 1038, 0, 0, 87, 38, 39, 556, 40, 41,
+	0, 87, 650, 87, 0, 0, 1055, 0, 0, 0,
+	0, 1307, 1309, 0, 0, 0, 1191, 230, 1026, 0,
+	234, 1193, 1186, 1187, 0, 1194, 1189, 1188, 0, 0,
+	1196, 1192, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1195, 0, 0, 0, 0, 0, 1185, 1582, 0,
+	0, 0, 0, 1587, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1607, 225, 0,
+	1065, 1066, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1629, 0, 0, 0, 0, 0, 49,
+	0, 0, 0, 0, 1358, 1359, 0, 1360, 334, 0,
+	0, 1362, 0, 1364, 0, 0, 227, 0, 235, 236,
+	237, 238, 242, 0, 0, 0, 0, 241, 240, 0,
+	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
+	0, 87, 0, 87, 0, 0, 87, 0, 0, 87,
+	0, 0, 0, 751, 0, 0, 0, 0, 0, 1399,
+	1400, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
+	0, 1680, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 87, 0, 47, 0, 0, 0, 0,
+	0, 0, 751, 0, 0, 0, 0, 0, 0, 0,
+	1247, 1697, 1698, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1262, 1263, 497, 0, 1264,
+	0, 0, 1266, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 267, 0, 0, 0, 0, 267,
+	267, 0, 0, 844, 844, 267, 0, 0, 0, 844,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 751, 334, 0, 0, 0, 0, 0, 0,
-	0, 30, 31, 33, 32, 35, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1683, 0, 0,
-	0, 0, 1374, 0, 0, 36, 43, 44, 0, 0,
-	45, 46, 34, 0, 267, 0, 0, 0, 0, 267,
-	267, 0, 0, 844, 844, 267, 0, 1700, 1701, 844,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 38, 39, 0, 40, 41, 0,
-	0, 0, 0, 1205, 0, 0, 0, 0, 0, 267,
+	0, 0, 0, 0, 0, 1255, 0, 47, 0, 267,
 	267, 267, 267, 0, 87, 0, 844, 87, 87, 87,
-	87, 87, 0, 0, 0, 0, 0, 0, 0, 877,
+	87, 87, 1267, 1268, 1269, 0, 0, 0, 0, 877,
 	0, 0, 87, 0, 0, 0, 650, 0, 0, 0,
 	0, 87, 87, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1297, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1306, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1352, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 703, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1255, 0,
-	0, 1466, 0, 0, 0, 0, 0, 0, 49, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1500,
-	0, 87, 0, 87, 0, 0, 0, 0, 87, 0,
-	87, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 703, 1525, 751, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 0, 1255, 0, 47, 0, 0, 0, 0, 0,
+	0, 87, 0, 87, 1377, 0, 0, 0, 87, 0,
+	87, 580, 0, 87, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 334, 751, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	267, 688, 0, 1412, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1374, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 704, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 267, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 688, 267, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 704, 0, 0, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 267, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 610, 611, 612, 613, 614,
+	615, 616, 617, 618, 619, 0, 720, 721, 0, 722,
+	723, 724, 726, 725, 705, 706, 707, 711, 709, 708,
+	710, 682, 684, 87, 620, 683, 689, 685, 686, 687,
+	701, 690, 691, 692, 693, 694, 695, 696, 697, 698,
+	699, 700, 702, 712, 713, 714, 715, 716, 717, 718,
+	719, 0, 0, 0, 1418, 703, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1118, 0, 1255, 0, 0, 1464, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1639, 0, 0, 0, 0, 0, 0, 610, 611, 612,
-	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
-	1118, 722, 723, 724, 726, 725, 705, 706, 707, 711,
-	709, 708, 710, 682, 684, 0, 620, 683, 689, 685,
-	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
-	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
-	717, 718, 719, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1498, 621, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1209, 1210, 0, 1694, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 267, 0, 0, 621, 0, 0, 0,
+	0, 0, 0, 0, 1560, 0, 0, 0, 0, 0,
+	0, 0, 688, 0, 0, 0, 0, 0, 0, 1522,
+	0, 0, 0, 0, 0, 1209, 1210, 0, 0, 0,
+	0, 1580, 580, 87, 1255, 0, 47, 0, 0, 0,
+	0, 0, 0, 267, 0, 704, 0, 0, 0, 0,
 	0, 0, 0, 0, 267, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 751, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 844,
-	0, 0, 0, 0, 0, 844, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1625, 0, 844,
+	0, 0, 0, 0, 0, 844, 610, 611, 612, 613,
+	614, 615, 616, 617, 618, 619, 0, 720, 721, 0,
+	722, 723, 724, 726, 725, 705, 706, 707, 711, 709,
+	708, 710, 682, 684, 0, 620, 683, 689, 685, 686,
+	687, 701, 690, 691, 692, 693, 694, 695, 696, 697,
+	698, 699, 700, 702, 712, 713, 714, 715, 716, 717,
+	718, 719, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1636, 0, 0, 1676, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	87, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	0, 0, 0, 0, 0, 621, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1691,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 650, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 87, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
+	352, 0, 905, 906, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 1096, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 87, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 844, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 0, 0, 0, 0, 449, 439,
-	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
-	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
-	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
-	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
-	423, 452, 395, 427, 453, 0, 0, 650, 352, 0,
-	905, 906, 0, 0, 0, 0, 0, 105, 0, 426,
-	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
-	446, 388, 389, 1096, 0, 0, 0, 0, 0, 0,
-	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
-	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
-	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
-	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
-	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
-	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 87, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
-	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
-	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
-	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
-	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
-	367, 368, 170, 405, 0, 104, 0, 0, 0, 0,
-	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 905, 906, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 1674, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 87, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 1216, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1671, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 449, 439, 87, 408, 451, 381, 397, 459, 399,
 	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 50, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
+	0, 352, 0, 905, 906, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1227,12 +1175,12 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 272,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
 	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 794, 0, 385, 0, 422, 0, 0, 0, 369,
+	0, 1216, 0, 385, 0, 422, 0, 0, 0, 369,
 	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
 	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
 	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
@@ -1258,7 +1206,7 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
+	452, 395, 427, 453, 50, 0, 0, 352, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
@@ -1293,7 +1241,7 @@ var yyAct = [...]int{
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
 	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	404, 0, 0, 0, 0, 0, 0, 794, 0, 385,
 	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
 	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
 	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
@@ -1335,12 +1283,12 @@ var yyAct = [...]int{
 	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
 	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
 	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
 	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
 	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
 	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
 	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 351, 349, 124, 173, 128,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
 	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
 	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
 	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
@@ -1351,7 +1299,7 @@ var yyAct = [...]int{
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
 	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1394,7 +1342,7 @@ var yyAct = [...]int{
 	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
 	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
 	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 660, 106, 172, 96, 190, 179, 181, 140, 126,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
 	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
@@ -1412,7 +1360,7 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
+	452, 395, 427, 453, 0, 0, 0, 88, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
@@ -1424,26 +1372,145 @@ var yyAct = [...]int{
 	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 341,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
 	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
 	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
 	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 350, 199, 148, 153, 151, 198, 185, 191,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
 	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
 	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 351,
-	349, 344, 343, 128, 135, 164, 212, 428, 169, 107,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
 	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
 	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
 	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 154, 104, 92, 0, 0, 274, 0,
-	0, 0, 116, 271, 0, 0, 130, 313, 133, 0,
+	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
+	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
+	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
+	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
+	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
+	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
+	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
+	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
+	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
+	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
+	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
+	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
+	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 362, 355, 387, 437, 93, 183, 660, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
+	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
+	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
+	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
+	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
+	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
+	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
+	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
+	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
+	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
+	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
+	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
+	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
+	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
+	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
+	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
+	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
+	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
+	355, 387, 437, 93, 183, 341, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
+	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
+	208, 209, 0, 0, 0, 351, 349, 344, 343, 128,
+	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
+	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
+	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
+	0, 0, 0, 0, 0, 367, 368, 170, 405, 154,
+	104, 92, 0, 0, 274, 0, 0, 0, 116, 271,
+	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
+	0, 895, 0, 50, 0, 0, 272, 292, 291, 294,
+	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
+	896, 0, 0, 269, 285, 0, 312, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
+	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
+	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 831,
+	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
+	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 895, 0, 50, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 510,
 	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 896, 0, 0, 269, 285, 0,
+	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
 	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
@@ -1467,7 +1534,7 @@ var yyAct = [...]int{
 	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
 	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
 	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 831, 170, 274, 322, 104, 0, 116,
+	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
 	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
 	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
@@ -1494,12 +1561,12 @@ var yyAct = [...]int{
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
 	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
 	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
 	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
 	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
 	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 510, 272, 292, 291, 294, 295, 296,
+	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
 	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
 	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1532,120 +1599,6 @@ var yyAct = [...]int{
 	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
 	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 265, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 23,
-	163, 118, 197, 0, 0, 0, 0, 0, 0, 0,
-	0, 154, 0, 92, 0, 170, 274, 322, 104, 0,
-	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
-	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
-	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
-	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
-	0, 0, 50, 0, 0, 272, 292, 291, 294, 295,
-	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
-	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
-	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
-	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
-	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
-	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
-	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 170,
-	116, 322, 104, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 0, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 1698, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 170, 116, 322, 104, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 0, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
 	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
@@ -1668,18 +1621,18 @@ var yyAct = [...]int{
 	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
 	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
 	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
+	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
+	0, 0, 285, 0, 312, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 0, 0, 555, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
+	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
 	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	168, 155, 194, 1695, 156, 166, 134, 186, 162, 193,
 	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
 	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
 	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
@@ -1691,21 +1644,21 @@ var yyAct = [...]int{
 	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
 	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
 	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
+	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
+	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
 	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 532, 0, 0, 0, 170, 116,
-	556, 104, 0, 130, 0, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
-	0, 0, 529, 528, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 530,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 170, 116,
+	322, 104, 0, 130, 313, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
+	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
+	300, 0, 0, 0, 0, 285, 0, 312, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
+	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
+	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
 	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
 	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
@@ -1720,407 +1673,323 @@ var yyAct = [...]int{
 	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
 	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
+	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 170, 116, 322, 104, 0, 130, 0, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
+	555, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
+	532, 0, 0, 0, 170, 116, 556, 104, 0, 130,
+	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 534, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 529, 528,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 23, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 0,
-	0, 104, 0, 116, 0, 0, 0, 130, 0, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 781, 0, 0, 782, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 669, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 530, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 668, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	649, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 649, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 651, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 647, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 170, 0, 0,
+	104, 0, 116, 0, 0, 0, 130, 0, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1390, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 23, 163,
+	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 170, 0, 0, 104, 0, 116,
+	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 1673, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
+	781, 0, 0, 782, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1282, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	669, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 668,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 534, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 647, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 1390, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 741, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 627, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 1670, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 336, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 170, 0, 0, 104, 116,
-	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 1282, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 88, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -2148,14 +2017,14 @@ var yyAct = [...]int{
 	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
 	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 85, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
 	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
 	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
@@ -2176,7 +2045,7 @@ var yyAct = [...]int{
 	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
 	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -2225,14 +2094,14 @@ var yyAct = [...]int{
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
 	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
 	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	103, 124, 173, 128, 135, 164, 212, 741, 169, 107,
 	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
+	154, 0, 92, 0, 0, 0, 0, 0, 627, 116,
 	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 272, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -2256,21 +2125,162 @@ var yyAct = [...]int{
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
 	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 336,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
+	0, 170, 0, 0, 104, 116, 0, 0, 0, 130,
+	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 85, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 272, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 170, 0, 0, 104,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 170, 0, 0,
+	104,
 }
 
 var yyPact = [...]int{
-	2299, -1000, -204, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2000, -1000, -201, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1272, 1315, -1000, -1000, -1000, -1000, -1000, -1000, 1123,
-	529, 307, 346, 195, 13542, 340, 2107, 14102, -1000, 92,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1070, -1000, -1000,
-	-1000, -1000, -1000, 1259, 1270, 1080, 1241, 1186, -1000, 7336,
-	262, 11856, 13262, 6182, -1000, 880, -187, 296, 13822, 260,
-	260, 13822, 13822, 260, -1000, -103, 315, 14102, -1000, 14102,
-	241, 874, 241, 241, 241, 14102, -1000, 396, -1000, -1000,
+	-1000, 1290, 1343, -1000, -1000, -1000, -1000, -1000, -1000, 1114,
+	381, 353, 390, 173, 13638, 383, 2048, 14198, -1000, 111,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1024, -1000, -1000,
+	-1000, -1000, -1000, 1281, 1287, 1058, 1261, 1181, -1000, 7432,
+	300, 11952, 13358, 6278, -1000, 875, -183, 328, 13918, 294,
+	294, 13918, 13918, 294, -1000, -63, 382, 14198, -1000, 14198,
+	292, 862, 292, 292, 292, 14198, -1000, 432, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2284,20 +2294,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 14102, 863, 1215, 231, 4026, 4026, 4026,
-	4026, 151, 4026, -65, 1135, -1000, -1000, -1000, -1000, 4026,
+	-1000, -1000, -1000, 14198, 858, 1213, 210, 4122, 4122, 4122,
+	4122, 220, 4122, -21, 1145, -1000, -1000, -1000, -1000, 4122,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	781, 1217, 7910, 7910, 1272, -1000, 1070, -1000, -1000, -1000,
-	1208, -1000, -1000, 563, 1291, -1000, 9042, 392, -1000, 7910,
-	115, 962, -1000, -1000, 962, -1000, -1000, 375, -1000, -1000,
-	8476, 8476, 8476, 8476, 8476, 8476, 8476, -1000, -1000, -1000,
+	879, 1218, 8006, 8006, 1290, -1000, 1024, -1000, -1000, -1000,
+	1210, -1000, -1000, 630, 1318, -1000, 9138, 428, -1000, 8006,
+	64, 963, -1000, -1000, 963, -1000, -1000, 410, -1000, -1000,
+	8572, 8572, 8572, 8572, 8572, 8572, 8572, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 962, -1000, 7623, 962, 962, 962, 962, 962, 962,
-	962, 962, 7910, 962, 962, 962, 962, 962, 962, 962,
-	962, 962, 1898, 962, 962, 962, 962, 12976, 971, 1165,
-	-1000, -1000, -1000, 1238, 9896, 10736, 14102, 939, -1000, 1026,
-	5874, -79, -1000, -1000, -1000, 502, 10456, -1000, -1000, -1000,
-	1210, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 963, -1000, 7719, 963, 963, 963, 963, 963, 963,
+	963, 963, 8006, 963, 963, 963, 963, 963, 963, 963,
+	963, 963, 1810, 963, 963, 963, 963, 13072, 995, 1165,
+	-1000, -1000, -1000, 1251, 9992, 10832, 14198, 893, -1000, 1015,
+	5970, -36, -1000, -1000, -1000, 546, 10552, -1000, -1000, -1000,
+	1212, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2308,156 +2318,155 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 926, -1000, 2607, 338, -1000, -1000, 14102, 1048, 861,
-	519, 857, 1134, 250, 14102, -1000, 12696, 4026, 303, 14102,
-	1230, 1133, 14102, 846, 828, -1000, 5566, -1000, 4026, 4026,
-	4026, 4026, 4026, 4026, 4026, 4026, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4026, 4026, -1000, -22, -1000, 14102, -1000, -1000,
-	-1000, -1000, 1310, 419, 799, 391, 1030, -1000, 721, 1259,
-	781, 1186, 10176, 1148, -1000, -1000, 14102, -1000, 7910, 7910,
-	639, -1000, 12416, -1000, -1000, 4334, 431, 8476, 648, 505,
-	8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476,
-	8476, 8476, 8476, 8476, 8476, 723, 1898, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 796, -1000, 1070, 1003, 1003,
-	11, 11, 11, 11, 11, 11, 8759, 6762, 781, 924,
-	454, 7623, 7336, 7336, 7910, 7910, 14382, 14382, 7336, 1243,
-	445, 454, 14382, -1000, 781, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 30, -1000, -1000, -1000, -1000, -1000,
+	-1000, 908, -1000, 2736, 365, -1000, -1000, 14198, 1120, 842,
+	595, 840, 1142, 283, 14198, -1000, 12792, 4122, 318, 14198,
+	1238, 1141, 14198, 838, 833, -1000, 5662, -1000, 4122, 4122,
+	4122, 4122, 4122, 4122, 4122, 4122, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4122, 4122, -1000, 7, -1000, 14198, -1000, -1000,
+	-1000, -1000, 1329, 429, 780, 427, 1020, -1000, 629, 1281,
+	879, 1181, 10272, 1014, -1000, -1000, 14198, -1000, 8006, 8006,
+	713, -1000, 12512, -1000, -1000, 4430, 452, 8572, 704, 550,
+	8572, 8572, 8572, 8572, 8572, 8572, 8572, 8572, 8572, 8572,
+	8572, 8572, 8572, 8572, 8572, 746, 1810, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 831, -1000, 1024, 962, 962,
+	16, 16, 16, 16, 16, 16, 8855, 6858, 879, 906,
+	631, 7719, 7432, 7432, 8006, 8006, 14478, 14478, 7432, 1253,
+	518, 631, 14478, -1000, 879, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 72, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7336, 7336, 7336, 7336, 178, 14102, -1000, 14382,
-	11856, 11856, 11856, 11856, 11856, -1000, 1155, 1153, -1000, 1175,
-	1152, 1159, 14102, -1000, 921, 9896, 313, 962, -1000, 12136,
-	-1000, -1000, 178, 1031, 11856, 14102, -1000, -1000, 5258, 1026,
-	-79, 998, -1000, -74, -46, 6475, 401, -1000, -1000, -1000,
-	-1000, 3410, 711, 1742, -129, -9, -1000, -1000, -1000, -1000,
-	1068, -1000, 1068, 216, 1068, 1068, 1068, -1000, 1068, 1068,
-	26, 26, 26, 26, 26, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1121, 1115, -1000, 1068, 1068, 1068, -1000, 1068,
+	-1000, -1000, 7432, 7432, 7432, 7432, 212, 14198, -1000, 14478,
+	11952, 11952, 11952, 11952, 11952, -1000, 1178, 1174, -1000, 1170,
+	1156, 1157, 14198, -1000, 899, 9992, 417, 963, -1000, 12232,
+	-1000, -1000, 212, 950, 11952, 14198, -1000, -1000, 5354, 1015,
+	-36, 1003, -1000, -30, -26, 6571, 440, -1000, -1000, -1000,
+	-1000, 3506, 1321, 1741, -131, 17, -1000, -1000, -1000, -1000,
+	1076, -1000, 1076, 214, 1076, 1076, 1076, -1000, 1076, 1076,
+	52, 52, 52, 52, 52, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1106, 1102, -1000, 1076, 1076, 1076, -1000, 1076,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1099, 225, 1099, 1071, 1071, -1000, -1000, 13822, 1236, -127,
-	788, 4026, 1222, 4026, 14102, 1286, 14102, -1000, -1000, -1000,
-	1772, 14102, -1000, 14102, -1000, -1000, 14102, 4026, -1000, -1000,
+	1094, 263, 1094, 1080, 1080, -1000, -1000, 13918, 1245, -83,
+	820, 4122, 1234, 4122, 14198, 1315, 14198, -1000, -1000, -1000,
+	841, 14198, -1000, 14198, -1000, -1000, 14198, 4122, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 499, -1000, -1000, -1000, -1000, 1191, 7910,
-	7910, 4950, 7910, -1000, -1000, -1000, 1217, -1000, 1243, 1266,
-	-1000, 1201, 1200, 7336, -1000, -1000, 431, 441, -1000, -1000,
-	688, -1000, -1000, -1000, -1000, 390, 962, -1000, 355, -1000,
-	-1000, -1000, -1000, 648, 8476, 8476, 8476, 1651, 355, 1683,
-	55, 515, 11, 173, 173, 6, 6, 6, 6, 6,
-	161, 161, -1000, -1000, -1000, -1000, 781, -1000, -1000, -1000,
-	781, 7336, 999, -1000, -1000, 7910, -1000, 781, 919, 919,
-	728, 583, 1022, -1000, 388, 1020, 919, 7336, 526, -1000,
-	7910, 781, -1000, -1000, 919, 781, 919, 919, 1042, 962,
-	-1000, 1017, -1000, 501, 1165, 1119, 1132, 961, -1000, -1000,
-	-1000, -1000, 1151, -1000, 1131, -1000, -1000, -1000, -1000, -1000,
-	317, 311, 309, 13822, -1000, 1280, 11856, 979, -1000, -1000,
-	998, -79, -86, -1000, -1000, -1000, -1000, 454, -1000, -1000,
-	755, 992, 3083, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1114, 636, 13822, 211, 207, 409, 378, 752, -1000,
-	-1000, -1000, 579, -1000, 13822, 1303, -1000, -1000, 204, -1000,
-	203, 518, 744, 14102, 129, 1101, 1991, -1000, -209, -1000,
-	-13, -1000, -1000, 702, 26, 26, 1068, 26, 26, 26,
-	-1000, -1000, 401, 1209, 401, 401, 401, 401, 739, 739,
-	-130, -130, -1000, -1000, -1000, 700, 1099, -1000, -1000, -1000,
-	675, -1000, 1112, 1070, -1000, 4642, -1000, -1000, -1000, -1000,
-	-1000, 1235, 1130, -1000, -1000, -1000, 110, -1000, 751, 2054,
-	451, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 176, 350, -1000, 4026, -1000, 508, 14102, 14102,
-	1189, 454, 454, 379, -1000, -1000, 14102, -1000, -1000, -1000,
-	-1000, 1012, -1000, -1000, -1000, 3718, 7336, -1000, 1651, 355,
-	1047, -1000, 8476, 8476, -1000, -1000, 919, 7336, 454, -1000,
-	-1000, -1000, 705, 723, 705, 8476, 8476, 4950, 8476, 8476,
-	-120, 982, 506, -1000, 7910, 626, -1000, -1000, -1000, -1000,
-	-1000, 1129, 14382, 962, -1000, 9609, 13822, 1272, 14382, 7910,
-	7910, -1000, -1000, 7910, 1098, -1000, 7910, -1000, -1000, -1000,
-	962, 962, 962, 884, -1000, 1272, 979, -1000, -1000, -1000,
-	-77, -89, -1000, -1000, 3410, -1000, 3410, 11576, -1000, 1288,
-	1256, 214, 238, -1000, 750, 749, -1000, 747, -1000, -12,
-	-1000, -185, 86, -47, -1000, -1000, 962, -1000, 1083, 1234,
-	-1000, 1218, 667, -1000, 1857, -198, -1000, -1000, -1000, -1000,
-	-1000, -1000, 962, 1077, 1075, -1000, 1074, -1000, -1000, -1000,
-	927, 401, 401, 26, 401, 401, 401, -1000, 460, -1000,
-	-1000, -1000, -1000, 916, -1000, 908, -1000, 54, 40, -1000,
-	991, -1000, 892, 14102, 13822, -1000, 977, -1000, 496, 1255,
-	138, 14102, 1286, -1000, 205, -1000, 13822, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 13822, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 14102, -1000, -1000,
-	-1000, -1000, -1000, 13822, 229, -1000, -1000, 731, 7910, -1000,
-	-1000, -1000, 4642, -1000, 1280, 11856, -1000, -1000, 781, -1000,
-	8476, 355, 355, -1000, -1000, 781, 1068, 1068, -1000, 1068,
-	1071, -1000, -1000, 1068, 78, 1068, 68, 781, 781, 295,
-	766, -1000, 277, 150, 962, -114, -1000, 454, 7910, -1000,
-	1223, 914, 960, -1000, -1000, 7049, 781, 888, 370, 884,
-	1259, -1000, 454, 454, 454, 11016, 454, 11016, 11016, 11016,
-	9322, 13822, 1259, -1000, -1000, -1000, -1000, 3083, -1000, 879,
-	-1000, 1068, 1068, 314, 314, -191, 199, 197, -1000, -1000,
-	-1000, -1000, -187, -1000, -1000, 518, -1000, 7910, 11016, -173,
-	-1000, 974, 905, 244, -1000, 144, 781, -1000, 732, -1000,
-	703, 889, -1000, -1000, -1000, 401, -1000, -1000, -1000, -1000,
-	-1000, 26, 730, 26, -24, -25, 656, -1000, 654, 986,
-	1128, 4642, 3410, 292, 1353, -1000, -1000, 1246, 1233, 13822,
-	-1000, -1000, -1000, 1065, -1000, -1000, -1000, -1000, 1211, 13822,
-	-1000, -1000, 454, 1277, 968, -1000, 355, -1000, -1000, 210,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 8476,
-	8476, -1000, 8476, 8476, 8476, 781, 718, 454, 194, -1000,
-	962, -1000, -1000, 990, 13822, 13822, -1000, -1000, 873, -1000,
-	-1000, 869, 869, 869, 313, -1000, -1000, 1554, 11576, 1227,
-	-1000, 601, -1000, -1000, 521, 126, 592, -1000, 13822, -187,
-	-1000, 962, 587, 867, 1064, 651, -1000, 885, 29, -130,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 401, -1000, 401,
-	-1000, -1000, 870, 821, 11576, 13822, 14102, -1000, -1000, 13822,
-	-1000, -1000, -1000, -1000, -1000, 107, 184, 1062, 11016, 962,
-	232, 1275, 1265, -1000, -1000, 310, 310, 310, 310, 42,
-	-1000, -1000, 1300, -1000, 962, -1000, 1070, 367, -1000, 13822,
-	-1000, -1000, -1000, -1000, -1000, 1126, 1773, 120, -1000, 734,
-	494, 637, 488, 467, 462, 452, 450, 442, 439, -1000,
-	-1000, -1000, 1298, -1000, -1000, -1000, 1294, 1061, -1000, 1059,
-	7910, 130, -1000, -1000, 802, 795, -1000, -1000, -1000, -1000,
-	-1000, -1000, 856, 1056, 1049, 931, -1000, 105, 184, -1000,
-	-1000, -1000, -1000, 11576, 854, 175, 191, -1000, 7910, 7910,
-	-1000, -1000, -1000, -1000, 781, 127, -163, 14382, 960, 781,
-	13822, -1000, -1000, 13822, -1000, -134, 1773, 13822, -1000, 643,
-	-1000, -1000, 569, 631, 569, 569, 569, 569, 569, 314,
-	314, 13822, 11576, 587, -1000, -116, 1024, -1000, -1000, -193,
-	11576, 11576, -126, 13822, 7910, 184, -1000, 844, 1048, 841,
-	-1000, 13822, 1044, 454, 946, -1000, 1182, -123, -167, 941,
-	-1000, -1000, 962, 839, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 518, 518, 820, 801,
-	-1000, -1000, -1000, 108, 710, 623, 618, 617, -19, -1000,
-	1263, 1280, 1041, 794, 780, -1000, -200, -1000, 454, -1000,
-	-1000, -127, -1000, 175, 1198, 11576, -1000, 1166, -1000, 13822,
-	-1000, 1773, -1000, -1000, 227, 1554, 594, -1000, 586, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 11296, 1554, 11016, 1280,
-	1554, 7910, -1000, -1000, 152, 769, -128, 781, -1000, 14102,
-	1126, -1000, -1000, -1000, 365, 1126, 767, 1554, -1000, 454,
-	170, -1000, -165, -1000, 1035, -1000, 4642, -1000, -1000, -1000,
-	962, -168, 13822, -1000, 8193, -1000, 765, 310, 781, -1000,
-	-1000, -1000,
+	-1000, -1000, -1000, 507, -1000, -1000, -1000, -1000, 1194, 8006,
+	8006, 5046, 8006, -1000, -1000, -1000, 1218, -1000, 1253, 1283,
+	-1000, 1202, 1201, 7432, -1000, -1000, 452, 455, -1000, -1000,
+	663, -1000, -1000, -1000, -1000, 421, 963, -1000, 1866, -1000,
+	-1000, -1000, -1000, 704, 8572, 8572, 8572, 177, 1866, 1743,
+	718, 284, 16, 32, 32, 15, 15, 15, 15, 15,
+	337, 337, -1000, -1000, -1000, -1000, 879, -1000, -1000, -1000,
+	879, 7432, 1012, -1000, -1000, 8006, -1000, 879, 888, 888,
+	574, 531, 1005, -1000, 416, 996, 888, 7432, 571, -1000,
+	8006, 879, -1000, -1000, 888, 879, 888, 888, 1040, 963,
+	-1000, 988, -1000, 542, 1165, 1119, 1137, 1138, -1000, -1000,
+	-1000, -1000, 1163, -1000, 1112, -1000, -1000, -1000, -1000, -1000,
+	362, 359, 347, 13918, -1000, 1309, 11952, 983, -1000, -1000,
+	1003, -36, -43, -1000, -1000, -1000, -1000, 631, -1000, -1000,
+	813, 999, 3155, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1101, 620, 13918, 261, 270, 409, 408, 806, -1000,
+	-1000, -1000, 698, -1000, 13918, 1328, -1000, -1000, 259, -1000,
+	258, 588, 770, 14198, 123, 1096, 1188, -1000, -208, -1000,
+	8, -1000, -1000, 751, 52, 52, 1076, 52, 52, 52,
+	-1000, -1000, 440, 1206, 440, 440, 440, 440, 769, 769,
+	-85, -85, -1000, -1000, -1000, 750, 1094, -1000, -1000, -1000,
+	749, -1000, 1100, 1024, -1000, 4738, -1000, -1000, -1000, -1000,
+	-1000, 1242, 1133, -1000, -1000, -1000, 167, -1000, 1004, 2076,
+	430, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 207, 394, -1000, 4122, -1000, 549, 14198, 14198,
+	1192, 631, 631, 415, -1000, -1000, 14198, -1000, -1000, -1000,
+	-1000, 991, -1000, -1000, -1000, 3814, 7432, -1000, 177, 1866,
+	1726, -1000, 8572, 8572, -1000, -1000, 888, 7432, 631, -1000,
+	-1000, -1000, 1922, 746, 1922, 8572, 8572, 5046, 8572, 8572,
+	-76, 984, 495, -1000, 8006, 489, -1000, -1000, -1000, -1000,
+	-1000, 1125, 14478, 963, -1000, 9705, 13918, 1290, 14478, 8006,
+	8006, -1000, -1000, 8006, 1093, -1000, 8006, -1000, -1000, -1000,
+	963, 963, 963, 870, -1000, 1290, 983, -1000, -1000, -1000,
+	-42, -49, -1000, -1000, 3506, -1000, 3506, 11672, -1000, 1317,
+	1277, 273, 287, -1000, 804, 803, -1000, 782, -1000, 6,
+	-1000, -174, 83, 96, -1000, -1000, 963, -1000, 1092, 1241,
+	-1000, 1211, 725, -1000, 297, -196, -1000, -1000, -1000, -1000,
+	-1000, -1000, 963, 1091, 1089, -1000, 1084, -1000, -1000, -1000,
+	930, 440, 440, 52, 440, 440, 440, -1000, 494, -1000,
+	-1000, -1000, -1000, 886, -1000, 884, -1000, 85, 84, -1000,
+	987, -1000, 882, 14198, 13918, -1000, 972, -1000, 537, 1266,
+	191, 14198, 1315, -1000, 268, -1000, 13918, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 13918, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 14198, -1000, -1000,
+	-1000, -1000, -1000, 13918, 280, -1000, -1000, 767, 8006, -1000,
+	-1000, -1000, 4738, -1000, 1309, 11952, -1000, -1000, 879, -1000,
+	8572, 1866, 1866, -1000, -1000, 879, 1076, 1076, -1000, 1076,
+	1080, -1000, -1000, 1076, 101, 1076, 99, 879, 879, 206,
+	1273, -1000, 150, 100, 963, -70, -1000, 631, 8006, -1000,
+	1222, 943, 951, -1000, -1000, 7145, 879, 874, 413, 870,
+	1281, -1000, 631, 631, 631, 11112, 631, 11112, 11112, 11112,
+	9418, 13918, 1281, -1000, -1000, -1000, -1000, 3155, -1000, 868,
+	-1000, 1076, 1076, 303, 303, -181, 257, 252, -1000, -1000,
+	-1000, -1000, -183, -1000, -1000, 588, -1000, 8006, 11112, -173,
+	-1000, 959, 929, 805, -1000, 2525, 879, -1000, 741, -1000,
+	734, 921, -1000, -1000, -1000, 440, -1000, -1000, -1000, -1000,
+	-1000, 52, 765, 52, 12, 11, 720, -1000, 712, 1011,
+	1124, 4738, 3506, 286, 1300, -1000, -1000, 1260, 1240, 13918,
+	-1000, -1000, -1000, 1075, -1000, -1000, -1000, -1000, 1225, 13918,
+	-1000, -1000, 631, 1306, 952, -1000, 1866, -1000, -1000, 209,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 8572,
+	8572, -1000, 8572, 8572, 8572, 879, 743, 631, 235, -1000,
+	963, -1000, -1000, 1002, 13918, 13918, -1000, -1000, 866, -1000,
+	-1000, 848, 848, 848, 417, -1000, -1000, 742, 11672, 1235,
+	-1000, 618, -1000, -1000, 603, 158, 579, -1000, 13918, -183,
+	-1000, 963, 611, 846, 1074, 711, -1000, 919, -1000, -131,
+	-1000, -1000, -1000, -1000, -1000, 440, -1000, 440, -1000, -1000,
+	912, 910, 11672, 13918, 14198, -1000, -1000, 13918, -1000, -1000,
+	-1000, -1000, -1000, 137, 227, 1067, 11112, 963, 285, 1303,
+	1285, -1000, -1000, 514, 514, 514, 514, 80, -1000, -1000,
+	1327, -1000, 963, -1000, 1024, 407, -1000, 13918, -1000, -1000,
+	-1000, -1000, -1000, 1123, 947, 116, -1000, 773, 523, 719,
+	493, 492, 491, 483, 482, 475, 471, -1000, -1000, -1000,
+	1322, -1000, -1000, -1000, 1324, 1066, -1000, 1052, 8006, 183,
+	-1000, -1000, 909, 903, -1000, -1000, -1000, -1000, -1000, 837,
+	1051, 1047, 897, -1000, 121, 227, -1000, -1000, -1000, -1000,
+	11672, 828, 200, 226, -1000, 8006, 8006, -1000, -1000, -1000,
+	-1000, 879, 164, -127, 14478, 951, 879, 13918, -1000, -1000,
+	13918, -1000, -107, 947, 13918, -1000, 710, -1000, -1000, 669,
+	685, 669, 669, 669, 669, 669, 303, 303, 13918, 11672,
+	611, -1000, -72, 168, -1000, -1000, -187, 11672, 11672, -82,
+	13918, 8006, 227, -1000, 826, 1120, 824, -1000, 13918, 1044,
+	631, 941, -1000, 1189, -80, -153, 932, -1000, -1000, 963,
+	812, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 588, 588, 801, 799, -1000, -1000, -1000,
+	129, 729, 665, 664, 639, 44, -1000, 1284, 1309, 1037,
+	795, 792, -1000, -198, -1000, 631, -1000, -1000, -83, -1000,
+	200, 1200, 11672, -1000, 1187, -1000, 13918, -1000, 947, -1000,
+	-1000, 278, 742, 636, -1000, 625, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 11392, 742, 11112, 1309, 742, 8006, -1000,
+	-1000, 195, 787, -101, 879, -1000, 14198, 1123, -1000, -1000,
+	-1000, 403, 1123, 781, 742, -1000, 631, 182, -1000, -143,
+	-1000, 1033, -1000, 4738, -1000, -1000, -1000, 963, -154, 13918,
+	-1000, 8289, -1000, 777, 514, 879, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1580, 19, 816, 1579, 1578, 1573, 1355, 1336, 1330,
-	1565, 1561, 1558, 1556, 1554, 1553, 1552, 1550, 1549, 1545,
-	1542, 1540, 1539, 1538, 511, 1537, 1536, 1535, 88, 1533,
-	96, 1530, 1527, 52, 115, 53, 50, 54, 1526, 32,
-	119, 89, 1523, 60, 1521, 1520, 98, 1519, 85, 1517,
-	1516, 95, 1515, 1500, 27, 3, 1487, 31, 1485, 1484,
-	91, 7, 1483, 1480, 1479, 1478, 1476, 1475, 75, 13,
-	17, 25, 29, 1474, 84, 37, 1473, 66, 1472, 1471,
-	1469, 1467, 51, 1466, 77, 24, 45, 76, 1465, 14,
-	1464, 83, 43, 39, 9, 97, 82, 1461, 46, 90,
-	68, 1460, 1458, 627, 1456, 1455, 1454, 1453, 1452, 1451,
-	600, 597, 1450, 1448, 1447, 56, 0, 462, 10, 104,
-	1446, 58, 1445, 1866, 93, 81, 34, 1443, 55, 1477,
-	47, 1442, 1434, 57, 92, 1432, 105, 103, 1431, 1429,
-	1428, 1426, 1423, 87, 40, 70, 202, 1421, 1413, 1412,
-	21, 61, 42, 65, 79, 1411, 1408, 1407, 36, 1405,
-	16, 30, 2, 71, 1402, 1401, 1400, 1398, 41, 33,
-	1397, 26, 22, 18, 6, 4, 1396, 1395, 1393, 1,
-	1391, 28, 1390, 5, 1389, 8, 1388, 1384, 1383, 1379,
-	1375, 1374, 1372, 1371, 1368, 1367, 12, 23, 48, 49,
-	11, 59, 44, 1364, 15, 1357, 1351, 1187, 759, 1341,
-	1334, 1324, 1322, 123,
+	0, 1587, 39, 829, 1582, 1580, 1578, 1360, 1357, 1351,
+	1577, 1570, 1566, 1564, 1563, 1558, 1556, 1555, 1544, 1542,
+	1540, 1539, 1533, 1532, 372, 1531, 1530, 1529, 99, 1528,
+	101, 1526, 1525, 59, 213, 67, 53, 1335, 1522, 81,
+	118, 122, 1520, 75, 1519, 1518, 104, 1517, 91, 1515,
+	1514, 30, 1513, 1512, 23, 6, 1511, 42, 1510, 1509,
+	94, 37, 1508, 1507, 1506, 1505, 1503, 1502, 79, 10,
+	13, 17, 25, 1501, 127, 11, 1500, 77, 1499, 1498,
+	1497, 1496, 54, 1494, 84, 24, 34, 83, 1493, 19,
+	1492, 88, 58, 41, 27, 102, 85, 1491, 55, 92,
+	82, 1490, 1488, 714, 1484, 1482, 1481, 1479, 1475, 1474,
+	620, 715, 1473, 1472, 1471, 60, 0, 217, 12, 103,
+	1470, 61, 1469, 1846, 106, 89, 45, 1467, 51, 184,
+	56, 1464, 1462, 57, 100, 36, 33, 22, 1459, 1454,
+	1453, 1452, 1445, 1057, 48, 32, 14, 1444, 1443, 16,
+	70, 68, 46, 71, 90, 1437, 1432, 1431, 47, 1429,
+	28, 18, 2, 74, 1428, 1419, 1416, 1415, 52, 26,
+	1414, 21, 44, 1, 4, 3, 1413, 1405, 1404, 5,
+	1400, 31, 1397, 9, 1396, 7, 1395, 1393, 1391, 1390,
+	1389, 1388, 1387, 1384, 1383, 1381, 15, 29, 50, 43,
+	20, 66, 49, 1380, 8, 1379, 1377, 1401, 696, 1362,
+	1355, 1353, 1349, 109,
 }
 
 var yyR1 = [...]int{
@@ -2478,66 +2487,65 @@ var yyR1 = [...]int{
 	198, 198, 198, 199, 199, 199, 199, 199, 199, 199,
 	199, 194, 194, 195, 195, 195, 195, 195, 195, 195,
 	195, 195, 195, 195, 195, 195, 195, 144, 144, 144,
-	144, 144, 144, 193, 193, 189, 189, 189, 189, 189,
-	139, 139, 137, 137, 137, 137, 137, 137, 137, 137,
-	137, 137, 138, 138, 138, 138, 138, 138, 138, 138,
-	140, 140, 140, 140, 140, 140, 140, 140, 136, 136,
+	144, 144, 144, 193, 193, 189, 189, 189, 139, 139,
+	137, 137, 137, 137, 137, 137, 137, 137, 137, 137,
+	138, 138, 138, 138, 138, 138, 138, 138, 140, 140,
+	140, 140, 140, 140, 140, 140, 136, 136, 141, 141,
 	141, 141, 141, 141, 141, 141, 141, 141, 141, 141,
 	141, 141, 141, 141, 141, 141, 141, 141, 141, 141,
-	141, 141, 141, 142, 142, 142, 142, 142, 142, 142,
-	142, 153, 153, 143, 143, 151, 151, 152, 152, 152,
-	150, 150, 150, 147, 147, 148, 148, 149, 149, 149,
-	145, 145, 145, 146, 146, 146, 156, 174, 174, 174,
-	176, 176, 177, 177, 175, 175, 175, 175, 175, 175,
-	175, 175, 175, 175, 175, 164, 164, 200, 200, 173,
-	173, 173, 170, 170, 170, 170, 170, 170, 170, 170,
-	163, 163, 172, 172, 171, 171, 158, 158, 158, 158,
-	158, 159, 160, 160, 160, 160, 157, 197, 197, 197,
-	196, 196, 161, 161, 162, 162, 167, 167, 167, 168,
-	168, 168, 169, 169, 169, 12, 12, 12, 12, 12,
-	12, 12, 12, 12, 12, 12, 12, 186, 186, 186,
-	186, 186, 186, 186, 186, 186, 186, 186, 210, 210,
-	211, 211, 211, 211, 211, 211, 211, 180, 178, 178,
-	179, 179, 13, 14, 14, 14, 14, 14, 15, 15,
-	17, 18, 18, 18, 18, 18, 18, 18, 18, 18,
+	141, 142, 142, 142, 142, 142, 142, 142, 142, 153,
+	153, 143, 143, 151, 151, 152, 152, 152, 150, 150,
+	150, 147, 147, 148, 148, 149, 149, 149, 145, 145,
+	145, 146, 146, 146, 156, 174, 174, 174, 176, 176,
+	177, 177, 175, 175, 175, 175, 175, 175, 175, 175,
+	175, 175, 175, 164, 164, 200, 200, 173, 173, 173,
+	170, 170, 170, 170, 170, 170, 170, 170, 163, 163,
+	172, 172, 171, 171, 158, 158, 158, 158, 158, 159,
+	160, 160, 160, 160, 157, 197, 197, 197, 196, 196,
+	161, 161, 162, 162, 167, 167, 167, 168, 168, 168,
+	169, 169, 169, 12, 12, 12, 12, 12, 12, 12,
+	12, 12, 12, 12, 12, 186, 186, 186, 186, 186,
+	186, 186, 186, 186, 186, 186, 210, 210, 211, 211,
+	211, 211, 211, 211, 211, 180, 178, 178, 179, 179,
+	13, 14, 14, 14, 14, 14, 15, 15, 17, 18,
+	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
 	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 18, 108, 108, 105, 105, 106, 106,
-	107, 107, 107, 109, 109, 109, 132, 132, 132, 19,
-	19, 21, 21, 22, 23, 20, 20, 20, 20, 20,
-	212, 24, 25, 25, 26, 26, 26, 30, 30, 30,
-	28, 28, 29, 29, 35, 35, 34, 34, 36, 36,
-	36, 36, 120, 120, 120, 119, 119, 38, 38, 39,
-	39, 40, 40, 41, 41, 41, 53, 53, 89, 89,
-	89, 92, 92, 42, 42, 42, 42, 43, 43, 44,
-	44, 45, 45, 127, 127, 126, 126, 126, 125, 125,
-	47, 47, 47, 49, 48, 48, 48, 48, 50, 50,
-	52, 52, 51, 51, 54, 54, 54, 54, 55, 55,
-	90, 90, 37, 37, 37, 37, 37, 37, 37, 104,
-	104, 57, 57, 56, 56, 56, 56, 56, 56, 56,
-	56, 56, 56, 67, 67, 67, 67, 67, 67, 58,
-	58, 58, 58, 58, 58, 58, 33, 33, 68, 68,
-	68, 74, 69, 69, 61, 61, 61, 61, 61, 61,
+	18, 18, 108, 108, 105, 105, 106, 106, 107, 107,
+	107, 109, 109, 109, 132, 132, 132, 19, 19, 21,
+	21, 22, 23, 20, 20, 20, 20, 20, 212, 24,
+	25, 25, 26, 26, 26, 30, 30, 30, 28, 28,
+	29, 29, 35, 35, 34, 34, 36, 36, 36, 36,
+	120, 120, 120, 119, 119, 38, 38, 39, 39, 40,
+	40, 41, 41, 41, 53, 53, 89, 89, 89, 92,
+	92, 42, 42, 42, 42, 43, 43, 44, 44, 45,
+	45, 127, 127, 126, 126, 126, 125, 125, 47, 47,
+	47, 49, 48, 48, 48, 48, 50, 50, 52, 52,
+	51, 51, 54, 54, 54, 54, 55, 55, 90, 90,
+	37, 37, 37, 37, 37, 37, 37, 104, 104, 57,
+	57, 56, 56, 56, 56, 56, 56, 56, 56, 56,
+	56, 67, 67, 67, 67, 67, 67, 58, 58, 58,
+	58, 58, 58, 58, 33, 33, 68, 68, 68, 74,
+	69, 69, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
-	61, 61, 61, 61, 61, 61, 65, 65, 65, 63,
+	61, 61, 61, 61, 65, 65, 65, 63, 63, 63,
 	63, 63, 63, 63, 63, 63, 63, 63, 63, 63,
-	63, 63, 63, 63, 64, 64, 64, 64, 64, 64,
-	64, 64, 64, 213, 213, 66, 66, 66, 66, 31,
-	31, 31, 31, 31, 130, 130, 133, 133, 133, 133,
-	133, 133, 133, 133, 133, 133, 133, 133, 133, 133,
-	134, 134, 134, 134, 134, 134, 134, 78, 78, 32,
-	32, 76, 76, 77, 79, 79, 75, 75, 75, 60,
-	60, 60, 60, 60, 60, 60, 60, 62, 62, 62,
-	80, 80, 81, 81, 82, 82, 83, 83, 84, 85,
-	85, 85, 86, 86, 86, 86, 87, 87, 87, 59,
-	59, 59, 59, 59, 59, 88, 88, 88, 88, 93,
-	93, 70, 70, 72, 72, 71, 73, 94, 94, 98,
-	95, 95, 99, 99, 99, 99, 97, 97, 97, 122,
-	122, 122, 102, 102, 110, 110, 111, 111, 103, 103,
-	112, 112, 112, 112, 112, 112, 112, 112, 112, 112,
-	113, 113, 113, 114, 114, 117, 117, 118, 118, 123,
-	123, 124, 124, 115, 115, 115, 115, 115, 115, 115,
-	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	63, 63, 64, 64, 64, 64, 64, 64, 64, 64,
+	64, 213, 213, 66, 66, 66, 66, 31, 31, 31,
+	31, 31, 130, 130, 133, 133, 133, 133, 133, 133,
+	133, 133, 133, 133, 133, 133, 133, 133, 134, 134,
+	134, 134, 134, 134, 134, 78, 78, 32, 32, 76,
+	76, 77, 79, 79, 75, 75, 75, 60, 60, 60,
+	60, 60, 60, 60, 60, 62, 62, 62, 80, 80,
+	81, 81, 82, 82, 83, 83, 84, 85, 85, 85,
+	86, 86, 86, 86, 87, 87, 87, 59, 59, 59,
+	59, 59, 59, 88, 88, 88, 88, 93, 93, 70,
+	70, 72, 72, 71, 73, 94, 94, 98, 95, 95,
+	99, 99, 99, 99, 97, 97, 97, 122, 122, 122,
+	102, 102, 110, 110, 111, 111, 103, 103, 112, 112,
+	112, 112, 112, 112, 112, 112, 112, 112, 113, 113,
+	113, 114, 114, 117, 117, 118, 118, 123, 123, 124,
+	124, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
@@ -2547,6 +2555,7 @@ var yyR1 = [...]int{
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	115, 115, 115, 115, 115, 115, 115, 115, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
@@ -2560,7 +2569,7 @@ var yyR1 = [...]int{
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 116, 116, 207, 208, 128, 129, 129, 129,
+	116, 207, 208, 128, 129, 129, 129,
 }
 
 var yyR2 = [...]int{
@@ -2581,64 +2590,64 @@ var yyR2 = [...]int{
 	2, 4, 6, 2, 1, 1, 1, 1, 1, 1,
 	3, 1, 2, 0, 4, 3, 4, 3, 3, 3,
 	3, 3, 3, 3, 2, 4, 6, 2, 3, 2,
-	3, 1, 3, 0, 2, 0, 3, 3, 2, 2,
-	2, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 2, 3, 2, 2, 2, 2, 1, 1,
-	1, 3, 3, 2, 1, 2, 1, 1, 1, 1,
-	4, 4, 4, 4, 4, 1, 5, 2, 2, 3,
-	3, 3, 3, 3, 1, 1, 1, 1, 1, 1,
-	1, 6, 6, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 3, 0, 3, 0, 5, 0, 3, 5,
-	0, 3, 3, 0, 1, 0, 1, 0, 2, 1,
-	0, 3, 3, 0, 1, 2, 6, 0, 1, 4,
-	1, 2, 1, 3, 2, 3, 2, 3, 3, 3,
-	3, 3, 3, 3, 3, 0, 1, 1, 1, 0,
-	2, 5, 2, 3, 3, 2, 3, 2, 3, 4,
-	1, 1, 1, 3, 3, 2, 2, 5, 5, 8,
-	8, 13, 1, 1, 2, 2, 10, 0, 1, 1,
-	0, 3, 0, 1, 1, 3, 0, 1, 3, 1,
-	2, 3, 1, 1, 1, 6, 11, 13, 7, 7,
-	7, 12, 7, 7, 7, 4, 5, 1, 1, 1,
+	3, 1, 3, 0, 2, 0, 2, 3, 2, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	2, 3, 2, 2, 2, 2, 1, 1, 1, 3,
+	3, 2, 1, 2, 1, 1, 1, 1, 4, 4,
+	4, 4, 4, 1, 5, 2, 2, 3, 3, 3,
+	3, 3, 1, 1, 1, 1, 1, 1, 1, 6,
+	6, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	3, 0, 3, 0, 5, 0, 3, 5, 0, 3,
+	3, 0, 1, 0, 1, 0, 2, 1, 0, 3,
+	3, 0, 1, 2, 6, 0, 1, 4, 1, 2,
+	1, 3, 2, 3, 2, 3, 3, 3, 3, 3,
+	3, 3, 3, 0, 1, 1, 1, 0, 2, 5,
+	2, 3, 3, 2, 3, 2, 3, 4, 1, 1,
+	1, 3, 3, 2, 2, 5, 5, 8, 8, 13,
+	1, 1, 2, 2, 10, 0, 1, 1, 0, 3,
+	0, 1, 1, 3, 0, 1, 3, 1, 2, 3,
+	1, 1, 1, 6, 11, 13, 7, 7, 7, 12,
+	7, 7, 7, 4, 5, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 7, 1, 3,
-	8, 8, 5, 4, 6, 5, 4, 4, 3, 2,
-	3, 4, 4, 4, 4, 4, 4, 4, 4, 3,
-	3, 3, 3, 4, 3, 6, 4, 2, 4, 2,
-	2, 2, 2, 3, 1, 1, 0, 1, 0, 1,
-	0, 2, 2, 0, 2, 2, 0, 1, 1, 2,
-	1, 1, 2, 1, 1, 2, 2, 2, 2, 2,
-	0, 2, 0, 2, 1, 2, 2, 0, 1, 1,
-	0, 1, 0, 1, 0, 1, 1, 3, 1, 2,
-	3, 5, 0, 1, 2, 1, 1, 0, 2, 1,
-	3, 1, 1, 1, 3, 3, 3, 7, 1, 1,
-	3, 1, 3, 4, 4, 4, 3, 2, 4, 0,
-	1, 0, 2, 0, 1, 0, 1, 2, 1, 1,
-	1, 2, 2, 1, 2, 3, 2, 3, 2, 2,
-	2, 1, 1, 3, 0, 5, 5, 5, 0, 2,
-	0, 4, 1, 3, 3, 2, 3, 1, 2, 0,
-	3, 1, 1, 3, 3, 4, 4, 5, 3, 4,
-	5, 6, 2, 1, 2, 1, 2, 1, 2, 1,
-	1, 1, 1, 1, 1, 1, 0, 2, 1, 1,
-	1, 3, 1, 3, 1, 1, 1, 1, 1, 3,
+	1, 1, 1, 1, 1, 7, 1, 3, 8, 8,
+	5, 4, 6, 5, 4, 4, 3, 2, 3, 4,
+	4, 4, 4, 4, 4, 4, 4, 3, 3, 3,
+	3, 4, 3, 6, 4, 2, 4, 2, 2, 2,
+	2, 3, 1, 1, 0, 1, 0, 1, 0, 2,
+	2, 0, 2, 2, 0, 1, 1, 2, 1, 1,
+	2, 1, 1, 2, 2, 2, 2, 2, 0, 2,
+	0, 2, 1, 2, 2, 0, 1, 1, 0, 1,
+	0, 1, 0, 1, 1, 3, 1, 2, 3, 5,
+	0, 1, 2, 1, 1, 0, 2, 1, 3, 1,
+	1, 1, 3, 3, 3, 7, 1, 1, 3, 1,
+	3, 4, 4, 4, 3, 2, 4, 0, 1, 0,
+	2, 0, 1, 0, 1, 2, 1, 1, 1, 2,
+	2, 1, 2, 3, 2, 3, 2, 2, 2, 1,
+	1, 3, 0, 5, 5, 5, 0, 2, 0, 4,
+	1, 3, 3, 2, 3, 1, 2, 0, 3, 1,
+	1, 3, 3, 4, 4, 5, 3, 4, 5, 6,
+	2, 1, 2, 1, 2, 1, 2, 1, 1, 1,
+	1, 1, 1, 1, 0, 2, 1, 1, 1, 3,
+	1, 3, 1, 1, 1, 1, 1, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 2, 2, 2, 2, 2, 2,
-	3, 3, 1, 1, 1, 1, 4, 5, 6, 4,
-	4, 6, 6, 6, 6, 8, 8, 6, 8, 8,
-	9, 7, 5, 4, 2, 2, 2, 2, 2, 2,
-	2, 2, 2, 0, 2, 4, 4, 4, 4, 0,
-	3, 4, 7, 3, 1, 1, 2, 3, 3, 1,
-	2, 2, 1, 1, 2, 1, 2, 2, 1, 2,
-	1, 2, 1, 1, 1, 1, 1, 0, 1, 0,
-	2, 1, 2, 4, 0, 2, 1, 3, 5, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 2, 2,
-	0, 3, 0, 2, 0, 3, 1, 3, 2, 0,
-	1, 1, 0, 2, 4, 4, 0, 2, 4, 2,
-	1, 3, 5, 4, 6, 1, 3, 3, 5, 0,
-	5, 1, 3, 1, 2, 3, 1, 1, 3, 3,
-	1, 3, 3, 3, 3, 3, 1, 2, 1, 1,
-	1, 1, 1, 1, 0, 2, 0, 3, 0, 1,
+	3, 3, 2, 2, 2, 2, 2, 2, 3, 3,
+	1, 1, 1, 1, 4, 5, 6, 4, 4, 6,
+	6, 6, 6, 8, 8, 6, 8, 8, 9, 7,
+	5, 4, 2, 2, 2, 2, 2, 2, 2, 2,
+	2, 0, 2, 4, 4, 4, 4, 0, 3, 4,
+	7, 3, 1, 1, 2, 3, 3, 1, 2, 2,
+	1, 1, 2, 1, 2, 2, 1, 2, 1, 2,
+	1, 1, 1, 1, 1, 0, 1, 0, 2, 1,
+	2, 4, 0, 2, 1, 3, 5, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 2, 2, 0, 3,
+	0, 2, 0, 3, 1, 3, 2, 0, 1, 1,
+	0, 2, 4, 4, 0, 2, 4, 2, 1, 3,
+	5, 4, 6, 1, 3, 3, 5, 0, 5, 1,
+	3, 1, 2, 3, 1, 1, 3, 3, 1, 3,
+	3, 3, 3, 3, 1, 2, 1, 1, 1, 1,
+	1, 1, 0, 2, 0, 3, 0, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 0, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	0, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2663,7 +2672,7 @@ var yyR2 = [...]int{
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 0, 0, 1, 1,
+	1, 1, 1, 0, 0, 1, 1,
 }
 
 var yyChk = [...]int{
@@ -2808,210 +2817,208 @@ var yyChk = [...]int{
 	53, -208, -208, -208, 53, 109, -208, -86, -89, -117,
 	135, -89, -89, -89, -126, -117, -86, 54, 53, -143,
 	-143, -160, 155, 156, 29, 157, -160, 309, 135, 135,
-	-197, -196, -37, -89, 299, 53, 54, -199, 210, 200,
-	239, 216, -208, 54, 54, 54, -146, -145, 57, -145,
-	246, 246, 58, 58, 52, 51, 50, -181, -169, 122,
-	20, 6, 8, 9, 10, 19, 22, -117, 52, 26,
-	-117, -80, 13, -145, 55, -61, -61, -61, -61, -61,
-	-208, 57, 135, -72, 32, -2, -207, -117, -117, 53,
-	54, -208, -208, -208, -54, -174, -176, 291, -175, 51,
-	132, 64, 164, 165, 166, 167, 168, 169, 170, -171,
-	-85, -196, 50, 66, 158, -196, 50, -161, -117, -197,
-	-207, -208, 54, 52, 58, 54, 208, -150, -146, -146,
-	54, 54, -172, -117, -51, -162, -117, 173, -203, -204,
-	-7, -9, -8, 52, -89, -207, 125, -81, 14, 16,
-	-208, -208, -208, -208, -31, 90, 291, 9, -70, -2,
-	109, -117, -173, 50, -175, 291, 52, 293, 55, -164,
-	80, 57, 80, 80, 80, 80, 80, 80, 80, 9,
-	10, 52, 52, -37, -193, 157, -195, 54, 54, 54,
-	52, 52, -190, 53, 51, 174, -204, -172, 54, -178,
-	-179, 145, 135, -37, -69, -208, 289, 47, 294, -94,
-	-208, -117, -117, -177, -175, -117, 58, -200, 50, 69,
-	58, -200, -200, -200, -200, -200, -160, -160, -162, -172,
-	-208, 286, 54, 176, 301, 302, 144, 303, 157, 304,
-	305, -90, 310, -172, -172, -191, 291, -117, -37, -204,
-	54, -185, -208, 53, -117, 52, 37, 290, 295, -207,
-	54, 53, -196, -196, 54, 54, 291, 58, 16, 58,
-	58, 58, 58, 302, 144, 304, 16, -55, 52, 54,
-	54, 312, -183, -179, 32, -172, 37, -117, -175, 128,
-	-174, 58, 58, 306, -123, -174, -89, -55, -174, -37,
-	147, 54, 291, -208, -51, -173, 109, -173, 54, -174,
-	148, 294, 52, -118, -207, 295, -162, -61, 144, 54,
-	-208, -208,
+	-197, -196, -37, -89, 299, 53, 54, -199, 239, -135,
+	-208, 54, 54, 54, -146, -145, 57, -145, 246, 246,
+	58, 58, 52, 51, 50, -181, -169, 122, 20, 6,
+	8, 9, 10, 19, 22, -117, 52, 26, -117, -80,
+	13, -145, 55, -61, -61, -61, -61, -61, -208, 57,
+	135, -72, 32, -2, -207, -117, -117, 53, 54, -208,
+	-208, -208, -54, -174, -176, 291, -175, 51, 132, 64,
+	164, 165, 166, 167, 168, 169, 170, -171, -85, -196,
+	50, 66, 158, -196, 50, -161, -117, -197, -207, -208,
+	54, 52, 58, 54, -149, -146, -146, 54, 54, -172,
+	-117, -51, -162, -117, 173, -203, -204, -7, -9, -8,
+	52, -89, -207, 125, -81, 14, 16, -208, -208, -208,
+	-208, -31, 90, 291, 9, -70, -2, 109, -117, -173,
+	50, -175, 291, 52, 293, 55, -164, 80, 57, 80,
+	80, 80, 80, 80, 80, 80, 9, 10, 52, 52,
+	-37, -193, 157, -195, 54, 54, 54, 52, 52, -190,
+	53, 51, 174, -204, -172, 54, -178, -179, 145, 135,
+	-37, -69, -208, 289, 47, 294, -94, -208, -117, -117,
+	-177, -175, -117, 58, -200, 50, 69, 58, -200, -200,
+	-200, -200, -200, -160, -160, -162, -172, -208, 286, 54,
+	176, 301, 302, 144, 303, 157, 304, 305, -90, 310,
+	-172, -172, -191, 291, -117, -37, -204, 54, -185, -208,
+	53, -117, 52, 37, 290, 295, -207, 54, 53, -196,
+	-196, 54, 54, 291, 58, 16, 58, 58, 58, 58,
+	302, 144, 304, 16, -55, 52, 54, 54, 312, -183,
+	-179, 32, -172, 37, -117, -175, 128, -174, 58, 58,
+	306, -123, -174, -89, -55, -174, -37, 147, 54, 291,
+	-208, -51, -173, 109, -173, 54, -174, 148, 294, 52,
+	-118, -207, 295, -162, -61, 144, 54, -208, -208,
 }
 
 var yyDef = [...]int{
 	0, -2, 2, -2, 5, 6, 7, 8, 9, 10,
 	11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-	21, 674, 0, 430, 430, 430, 430, 430, 430, 0,
-	-2, 728, 0, 0, 0, 0, -2, 420, 421, 0,
-	423, 424, 995, 995, 995, 995, 995, 0, 33, 34,
-	993, 1, 3, 682, 0, 0, 434, 437, 432, 0,
-	728, 0, 0, 0, 60, 0, 317, 0, 0, 726,
-	726, 0, 0, 726, 95, 0, 0, 0, 729, 0,
-	724, 0, 724, 724, 724, 0, 379, 502, 749, 750,
-	860, 861, 862, 863, 864, 865, 866, 867, 868, 869,
-	870, 871, 872, 873, 874, 875, 876, 877, 878, 879,
-	880, 881, 882, 883, 884, 885, 886, 887, 888, 889,
-	890, 891, 892, 893, 894, 895, 896, 897, 898, 899,
-	900, 901, 902, 903, 904, 905, 906, 907, 908, 909,
-	910, 911, 912, 913, 914, 915, 916, 917, 918, 919,
-	920, 921, 922, 923, 924, 925, 926, 927, 928, 929,
-	930, 931, 932, 933, 934, 935, 936, 937, 938, 939,
-	940, 941, 942, 943, 944, 945, 946, 947, 948, 949,
-	950, 951, 952, 953, 954, 955, 956, 957, 958, 959,
-	960, 961, 962, 963, 964, 965, 966, 967, 968, 969,
-	970, 971, 972, 973, 974, 975, 976, 977, 978, 979,
-	980, 981, 982, 983, 984, 985, 986, 987, 988, 989,
-	990, 991, 992, 0, 0, 0, 0, 996, 996, 996,
-	996, 0, 996, 408, 397, 399, 400, 401, 402, 996,
-	417, 418, 407, 419, 422, 425, 426, 427, 428, 429,
-	27, 686, 0, 0, 674, 29, 0, 430, 435, 436,
-	440, 438, 439, 431, 0, 448, 452, 0, 512, 0,
-	517, 519, -2, -2, 0, 554, 555, 556, 557, 558,
-	0, 0, 0, 0, 0, 0, 0, 582, 583, 584,
-	585, 659, 660, 661, 662, 663, 664, 665, 666, 521,
-	522, 656, 706, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 647, 0, 613, 613, 613, 613, 613, 613,
-	613, 613, 0, 0, 0, 0, 0, 0, 0, 459,
-	461, 462, 463, 483, 0, 485, 0, 0, 41, 45,
-	0, 962, 710, -2, -2, 0, 0, 747, 748, -2,
-	872, -2, 745, 746, 753, 754, 755, 756, 757, 758,
-	759, 760, 761, 762, 763, 764, 765, 766, 767, 768,
-	769, 770, 771, 772, 773, 774, 775, 776, 777, 778,
-	779, 780, 781, 782, 783, 784, 785, 786, 787, 788,
-	789, 790, 791, 792, 793, 794, 795, 796, 797, 798,
-	799, 800, 801, 802, 803, 804, 805, 806, 807, 808,
-	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 822, 823, 824, 825, 826, 827, 828,
-	829, 830, 831, 832, 833, 834, 835, 836, 837, 838,
-	839, 840, 841, 842, 843, 844, 845, 846, 847, 848,
-	849, 850, 851, 852, 853, 854, 855, 856, 857, 858,
-	859, 0, 108, 0, 0, 318, 319, 0, 96, 0,
-	0, 0, 0, 0, 0, 105, 0, 996, 0, 0,
-	0, 0, 0, 0, 0, 378, 0, 380, 996, 996,
-	996, 996, 996, 996, 996, 996, 389, 997, 998, 390,
-	391, 392, 996, 996, 394, 0, 409, 0, 403, 28,
-	994, 22, 0, 0, 683, 0, 675, 676, 679, 682,
-	27, 437, 0, 442, 441, 433, 0, 449, 0, 0,
-	0, 453, 0, 455, 456, 0, 515, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 539, 540, 541,
-	542, 543, 544, 545, 518, 0, 532, 0, 0, 0,
-	574, 575, 576, 577, 578, 579, 0, 444, 27, 0,
-	552, 0, 0, 0, 0, 0, 0, 0, 0, 440,
-	0, 648, 0, 604, 0, 605, 606, 607, 608, 609,
-	610, 611, 612, 640, 0, 642, 643, 644, 645, 646,
-	182, 183, 184, 185, 186, 187, 188, 189, 190, 191,
-	208, 209, 0, 444, 0, 0, 43, 0, 501, 0,
-	0, 0, 0, 0, 0, 490, 0, 0, 493, 0,
-	0, 0, 0, 484, 0, 0, 504, 926, 486, 0,
-	488, 489, -2, 0, 0, 0, 39, 40, 0, 46,
-	962, 48, 49, 0, 0, 0, 263, 719, 720, 721,
-	717, 326, 0, 113, 257, 253, 115, 116, 117, 118,
-	243, 181, 243, 243, 243, 243, 243, 215, 243, 243,
-	260, 260, 260, 260, 260, 224, 225, 226, 227, 228,
-	229, 230, 0, 0, 200, 243, 243, 243, 204, 243,
-	206, 207, 233, 234, 235, 236, 237, 238, 239, 240,
-	245, 245, 245, 247, 247, 198, 199, 0, 0, 99,
-	0, 996, 0, 996, 0, 0, 0, 71, 72, 106,
-	0, 0, 345, 0, 373, 725, 0, 996, 376, 377,
-	503, 751, 752, 381, 382, 383, 384, 385, 386, 387,
-	388, 393, 396, 410, 404, 405, 398, 687, 0, 0,
-	0, 0, 0, 678, 680, 681, 686, 30, 440, 0,
-	667, 0, 0, 0, 443, 25, 513, 514, 516, 533,
-	0, 535, 537, 454, 450, 0, 657, -2, 523, 524,
-	548, 549, 550, 0, 0, 0, 0, 546, 528, 0,
-	559, 560, 561, 562, 563, 564, 565, 566, 567, 568,
-	569, 570, 573, 624, 625, 581, 0, 571, 572, 580,
-	0, 0, 445, 446, 551, 0, 705, 27, 0, 0,
-	0, 0, 0, 656, 0, 0, 0, 0, 654, 651,
-	0, 0, 614, 641, 0, 0, 0, 0, 0, 0,
-	500, 508, 707, 0, 460, 479, 481, 0, 476, 491,
-	492, 494, 0, 496, 0, 498, 499, 464, 465, 466,
-	0, 0, 0, 0, 487, 508, 0, 508, 42, 711,
-	47, 0, 0, 52, 53, 712, 713, 714, 715, 264,
-	0, 107, 327, 329, 332, 333, 334, 109, 110, 111,
-	112, 0, 320, 322, 0, 0, 0, 0, 0, 300,
-	301, 120, 0, 122, 0, 0, 125, 126, 0, 128,
-	130, 320, 0, 0, 0, 0, 0, 119, 0, 259,
-	255, 254, 180, 0, 260, 260, 243, 260, 260, 260,
-	217, 218, 263, 0, 263, 263, 263, 263, 0, 0,
-	250, 250, 203, 205, 192, 0, 245, 194, 195, 196,
-	0, 197, 0, 0, 65, 0, 97, 98, 66, 727,
-	67, 81, 0, 73, 74, 75, 0, 995, 94, 0,
-	740, 346, 730, 731, 732, 733, 734, 735, 736, 737,
-	738, 739, 0, 0, 372, 996, 375, 413, 0, 0,
-	0, 684, 685, 0, 677, 23, 0, 722, 723, 668,
-	669, 457, 534, 536, 538, 0, 444, 525, 546, 529,
-	0, 526, 0, 0, 520, 586, 0, 0, 553, -2,
-	589, 590, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 674, 0, 652, 0, 0, 603, 615, 616, 617,
-	618, 699, 0, 0, -2, 0, 0, 674, 0, 0,
-	0, 473, 480, 0, 0, 474, 0, 475, 495, 497,
-	0, 0, 0, 0, 471, 674, 508, 38, 50, 51,
-	0, 0, 57, 265, 0, 330, 0, 0, 306, 0,
-	0, 0, 323, 292, 0, 0, 295, 0, 297, 317,
+	21, 672, 0, 428, 428, 428, 428, 428, 428, 0,
+	-2, 726, 0, 0, 0, 0, -2, 418, 419, 0,
+	421, 422, 993, 993, 993, 993, 993, 0, 33, 34,
+	991, 1, 3, 680, 0, 0, 432, 435, 430, 0,
+	726, 0, 0, 0, 60, 0, 315, 0, 0, 724,
+	724, 0, 0, 724, 95, 0, 0, 0, 727, 0,
+	722, 0, 722, 722, 722, 0, 377, 500, 747, 748,
+	858, 859, 860, 861, 862, 863, 864, 865, 866, 867,
+	868, 869, 870, 871, 872, 873, 874, 875, 876, 877,
+	878, 879, 880, 881, 882, 883, 884, 885, 886, 887,
+	888, 889, 890, 891, 892, 893, 894, 895, 896, 897,
+	898, 899, 900, 901, 902, 903, 904, 905, 906, 907,
+	908, 909, 910, 911, 912, 913, 914, 915, 916, 917,
+	918, 919, 920, 921, 922, 923, 924, 925, 926, 927,
+	928, 929, 930, 931, 932, 933, 934, 935, 936, 937,
+	938, 939, 940, 941, 942, 943, 944, 945, 946, 947,
+	948, 949, 950, 951, 952, 953, 954, 955, 956, 957,
+	958, 959, 960, 961, 962, 963, 964, 965, 966, 967,
+	968, 969, 970, 971, 972, 973, 974, 975, 976, 977,
+	978, 979, 980, 981, 982, 983, 984, 985, 986, 987,
+	988, 989, 990, 0, 0, 0, 0, 994, 994, 994,
+	994, 0, 994, 406, 395, 397, 398, 399, 400, 994,
+	415, 416, 405, 417, 420, 423, 424, 425, 426, 427,
+	27, 684, 0, 0, 672, 29, 0, 428, 433, 434,
+	438, 436, 437, 429, 0, 446, 450, 0, 510, 0,
+	515, 517, -2, -2, 0, 552, 553, 554, 555, 556,
+	0, 0, 0, 0, 0, 0, 0, 580, 581, 582,
+	583, 657, 658, 659, 660, 661, 662, 663, 664, 519,
+	520, 654, 704, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 645, 0, 611, 611, 611, 611, 611, 611,
+	611, 611, 0, 0, 0, 0, 0, 0, 0, 457,
+	459, 460, 461, 481, 0, 483, 0, 0, 41, 45,
+	0, 960, 708, -2, -2, 0, 0, 745, 746, -2,
+	870, -2, 743, 744, 751, 752, 753, 754, 755, 756,
+	757, 758, 759, 760, 761, 762, 763, 764, 765, 766,
+	767, 768, 769, 770, 771, 772, 773, 774, 775, 776,
+	777, 778, 779, 780, 781, 782, 783, 784, 785, 786,
+	787, 788, 789, 790, 791, 792, 793, 794, 795, 796,
+	797, 798, 799, 800, 801, 802, 803, 804, 805, 806,
+	807, 808, 809, 810, 811, 812, 813, 814, 815, 816,
+	817, 818, 819, 820, 821, 822, 823, 824, 825, 826,
+	827, 828, 829, 830, 831, 832, 833, 834, 835, 836,
+	837, 838, 839, 840, 841, 842, 843, 844, 845, 846,
+	847, 848, 849, 850, 851, 852, 853, 854, 855, 856,
+	857, 0, 108, 0, 0, 316, 317, 0, 96, 0,
+	0, 0, 0, 0, 0, 105, 0, 994, 0, 0,
+	0, 0, 0, 0, 0, 376, 0, 378, 994, 994,
+	994, 994, 994, 994, 994, 994, 387, 995, 996, 388,
+	389, 390, 994, 994, 392, 0, 407, 0, 401, 28,
+	992, 22, 0, 0, 681, 0, 673, 674, 677, 680,
+	27, 435, 0, 440, 439, 431, 0, 447, 0, 0,
+	0, 451, 0, 453, 454, 0, 513, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 537, 538, 539,
+	540, 541, 542, 543, 516, 0, 530, 0, 0, 0,
+	572, 573, 574, 575, 576, 577, 0, 442, 27, 0,
+	550, 0, 0, 0, 0, 0, 0, 0, 0, 438,
+	0, 646, 0, 602, 0, 603, 604, 605, 606, 607,
+	608, 609, 610, 638, 0, 640, 641, 642, 643, 644,
+	180, 181, 182, 183, 184, 185, 186, 187, 188, 189,
+	206, 207, 0, 442, 0, 0, 43, 0, 499, 0,
+	0, 0, 0, 0, 0, 488, 0, 0, 491, 0,
+	0, 0, 0, 482, 0, 0, 502, 924, 484, 0,
+	486, 487, -2, 0, 0, 0, 39, 40, 0, 46,
+	960, 48, 49, 0, 0, 0, 261, 717, 718, 719,
+	715, 324, 0, 113, 255, 251, 115, 116, 117, 118,
+	241, 179, 241, 241, 241, 241, 241, 213, 241, 241,
+	258, 258, 258, 258, 258, 222, 223, 224, 225, 226,
+	227, 228, 0, 0, 198, 241, 241, 241, 202, 241,
+	204, 205, 231, 232, 233, 234, 235, 236, 237, 238,
+	243, 243, 243, 245, 245, 196, 197, 0, 0, 99,
+	0, 994, 0, 994, 0, 0, 0, 71, 72, 106,
+	0, 0, 343, 0, 371, 723, 0, 994, 374, 375,
+	501, 749, 750, 379, 380, 381, 382, 383, 384, 385,
+	386, 391, 394, 408, 402, 403, 396, 685, 0, 0,
+	0, 0, 0, 676, 678, 679, 684, 30, 438, 0,
+	665, 0, 0, 0, 441, 25, 511, 512, 514, 531,
+	0, 533, 535, 452, 448, 0, 655, -2, 521, 522,
+	546, 547, 548, 0, 0, 0, 0, 544, 526, 0,
+	557, 558, 559, 560, 561, 562, 563, 564, 565, 566,
+	567, 568, 571, 622, 623, 579, 0, 569, 570, 578,
+	0, 0, 443, 444, 549, 0, 703, 27, 0, 0,
+	0, 0, 0, 654, 0, 0, 0, 0, 652, 649,
+	0, 0, 612, 639, 0, 0, 0, 0, 0, 0,
+	498, 506, 705, 0, 458, 477, 479, 0, 474, 489,
+	490, 492, 0, 494, 0, 496, 497, 462, 463, 464,
+	0, 0, 0, 0, 485, 506, 0, 506, 42, 709,
+	47, 0, 0, 52, 53, 710, 711, 712, 713, 262,
+	0, 107, 325, 327, 330, 331, 332, 109, 110, 111,
+	112, 0, 318, 320, 0, 0, 0, 0, 0, 298,
+	299, 120, 0, 122, 0, 0, 125, 126, 0, 128,
+	130, 318, 0, 0, 0, 0, 0, 119, 0, 257,
+	253, 252, 178, 0, 258, 258, 241, 258, 258, 258,
+	215, 216, 261, 0, 261, 261, 261, 261, 0, 0,
+	248, 248, 201, 203, 190, 0, 243, 192, 193, 194,
+	0, 195, 0, 0, 65, 0, 97, 98, 66, 725,
+	67, 81, 0, 73, 74, 75, 0, 993, 94, 0,
+	738, 344, 728, 729, 730, 731, 732, 733, 734, 735,
+	736, 737, 0, 0, 370, 994, 373, 411, 0, 0,
+	0, 682, 683, 0, 675, 23, 0, 720, 721, 666,
+	667, 455, 532, 534, 536, 0, 442, 523, 544, 527,
+	0, 524, 0, 0, 518, 584, 0, 0, 551, -2,
+	587, 588, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 672, 0, 650, 0, 0, 601, 613, 614, 615,
+	616, 697, 0, 0, -2, 0, 0, 672, 0, 0,
+	0, 471, 478, 0, 0, 472, 0, 473, 493, 495,
+	0, 0, 0, 0, 469, 672, 506, 38, 50, 51,
+	0, 0, 57, 263, 0, 328, 0, 0, 304, 0,
+	0, 0, 321, 290, 0, 0, 293, 0, 295, 315,
 	121, 0, 0, 0, 127, 129, 0, 133, 134, 0,
 	151, 0, 0, 140, 0, 175, 144, 145, 146, 147,
-	148, 149, 0, 243, 243, 171, 0, 258, 114, 256,
-	0, 263, 263, 260, 263, 263, 263, 219, 0, 220,
-	221, 222, 223, 0, 241, 0, 201, 0, 0, 202,
-	0, 193, 0, 0, 0, -2, 100, 101, 0, 84,
-	0, 0, 0, 335, 0, 995, 0, 360, 361, 362,
-	363, 364, 365, 366, 995, 0, 347, 348, 349, 350,
-	351, 352, 353, 354, 355, 356, 357, 0, 995, 741,
-	742, 743, 744, 0, 0, 374, 395, 0, 0, 411,
-	412, 688, 0, 24, 508, 0, 451, 658, 0, 527,
-	0, 547, 530, 587, 447, 0, 243, 243, 629, 243,
-	247, 632, 633, 243, 635, 243, 638, 0, 0, 0,
-	0, 657, 0, 0, 0, 649, 602, 655, 0, 31,
-	0, 699, 689, 701, 703, 0, 27, 0, 695, 0,
-	682, 708, 509, 709, 477, 0, 482, 0, 0, 0,
-	485, 0, 682, 37, 54, 55, 56, 328, 331, 0,
-	302, 243, 243, 0, 0, 0, 0, 0, 293, 294,
-	296, 298, 317, 139, 123, 320, 124, 0, 0, 0,
+	148, 149, 0, 241, 241, 171, 0, 256, 114, 254,
+	0, 261, 261, 258, 261, 261, 261, 217, 0, 218,
+	219, 220, 221, 0, 239, 0, 199, 0, 0, 200,
+	0, 191, 0, 0, 0, -2, 100, 101, 0, 84,
+	0, 0, 0, 333, 0, 993, 0, 358, 359, 360,
+	361, 362, 363, 364, 993, 0, 345, 346, 347, 348,
+	349, 350, 351, 352, 353, 354, 355, 0, 993, 739,
+	740, 741, 742, 0, 0, 372, 393, 0, 0, 409,
+	410, 686, 0, 24, 506, 0, 449, 656, 0, 525,
+	0, 545, 528, 585, 445, 0, 241, 241, 627, 241,
+	245, 630, 631, 241, 633, 241, 636, 0, 0, 0,
+	0, 655, 0, 0, 0, 647, 600, 653, 0, 31,
+	0, 697, 687, 699, 701, 0, 27, 0, 693, 0,
+	680, 706, 507, 707, 475, 0, 480, 0, 0, 0,
+	483, 0, 680, 37, 54, 55, 56, 326, 329, 0,
+	300, 241, 241, 0, 0, 0, 0, 0, 291, 292,
+	294, 296, 315, 139, 123, 318, 124, 0, 0, 0,
 	152, 0, 0, 0, 143, 0, 0, 167, 0, 169,
-	0, 0, 244, 210, 211, 263, 212, 213, 214, 261,
-	262, 260, 0, 260, 0, 0, 0, 248, 0, 0,
+	0, 0, 242, 208, 209, 261, 210, 211, 212, 259,
+	260, 258, 0, 258, 0, 0, 0, 246, 0, 0,
 	0, 0, 0, 0, 0, 82, 83, 0, 0, 0,
-	358, 359, 339, 0, 340, 342, 343, 344, 0, 322,
-	338, 414, 415, 670, 458, 588, 531, 591, 626, 260,
-	630, 631, 634, 636, 637, 639, 593, 592, 594, 0,
-	0, 597, 0, 0, 0, 0, 0, 653, 0, 32,
-	0, 704, -2, 0, 0, 0, 44, 35, 0, 468,
-	469, 0, 0, 0, 504, 472, 36, 267, 0, 679,
-	305, 320, 312, 313, 0, 0, 320, 321, 322, 317,
-	299, 0, 0, 0, 136, 0, 141, 0, 0, 250,
-	178, 179, 150, 168, 170, 172, 216, 263, 242, 263,
-	251, 252, 0, 0, 0, 0, 0, 102, 103, 0,
-	85, 86, 87, 88, 89, 0, 0, 0, 0, 0,
-	323, 672, 0, 627, 628, 0, 0, 0, 0, 619,
-	601, 650, 0, 702, 0, -2, 0, 697, 696, 0,
-	478, 505, 506, 507, 467, 289, 268, 0, 270, 0,
-	285, 0, 0, 0, 0, 0, 0, 0, 0, 303,
-	304, 307, 0, 314, 315, 308, 0, 0, 323, 0,
-	0, 173, 135, 153, 0, 0, 176, 177, 231, 232,
-	246, 249, 0, 0, 0, 90, 324, 0, 70, 76,
-	78, 79, 80, 0, 0, 0, 0, 26, 0, 0,
-	595, 596, 598, 599, 0, 0, 0, 0, 692, 27,
-	0, 470, 266, 0, 271, 0, 0, 0, 274, 0,
-	286, 276, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 131, 0, 0, 138, 142, 510,
-	0, 0, 92, 0, 0, 0, 77, 0, 96, 0,
-	368, 0, 0, 673, 671, 600, 0, 0, 0, 700,
-	-2, 698, 290, 0, 272, 277, 275, 278, 287, 288,
-	279, 280, 281, 282, 283, 284, 320, 320, 0, 0,
-	132, 174, 137, 0, 0, 0, 0, 0, 0, 164,
-	0, 508, 0, 0, 0, 68, 0, 325, 91, 69,
-	336, 99, 367, 0, 0, 0, 620, 0, 623, 0,
-	269, 0, 309, 310, 0, 267, 0, 155, 0, 157,
-	158, 159, 160, 161, 162, 163, 0, 267, 0, 508,
-	267, 0, 341, 369, 0, 0, 621, 0, 273, 0,
-	289, 154, 156, 165, 0, 289, 0, 267, 62, 93,
-	0, 337, 0, 291, 0, 316, 0, 61, 511, 63,
-	0, 0, 0, 166, 0, 622, 0, 0, 0, 311,
-	370, 371,
+	356, 357, 337, 0, 338, 340, 341, 342, 0, 320,
+	336, 412, 413, 668, 456, 586, 529, 589, 624, 258,
+	628, 629, 632, 634, 635, 637, 591, 590, 592, 0,
+	0, 595, 0, 0, 0, 0, 0, 651, 0, 32,
+	0, 702, -2, 0, 0, 0, 44, 35, 0, 466,
+	467, 0, 0, 0, 502, 470, 36, 265, 0, 677,
+	303, 318, 310, 311, 0, 0, 318, 319, 320, 315,
+	297, 0, 0, 0, 136, 0, 141, 0, 176, 255,
+	150, 168, 170, 172, 214, 261, 240, 261, 249, 250,
+	0, 0, 0, 0, 0, 102, 103, 0, 85, 86,
+	87, 88, 89, 0, 0, 0, 0, 0, 321, 670,
+	0, 625, 626, 0, 0, 0, 0, 617, 599, 648,
+	0, 700, 0, -2, 0, 695, 694, 0, 476, 503,
+	504, 505, 465, 287, 266, 0, 268, 0, 283, 0,
+	0, 0, 0, 0, 0, 0, 0, 301, 302, 305,
+	0, 312, 313, 306, 0, 0, 321, 0, 0, 173,
+	135, 153, 0, 0, 177, 229, 230, 244, 247, 0,
+	0, 0, 90, 322, 0, 70, 76, 78, 79, 80,
+	0, 0, 0, 0, 26, 0, 0, 593, 594, 596,
+	597, 0, 0, 0, 0, 690, 27, 0, 468, 264,
+	0, 269, 0, 0, 0, 272, 0, 284, 274, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 131, 0, 0, 138, 142, 508, 0, 0, 92,
+	0, 0, 0, 77, 0, 96, 0, 366, 0, 0,
+	671, 669, 598, 0, 0, 0, 698, -2, 696, 288,
+	0, 270, 275, 273, 276, 285, 286, 277, 278, 279,
+	280, 281, 282, 318, 318, 0, 0, 132, 174, 137,
+	0, 0, 0, 0, 0, 0, 164, 0, 506, 0,
+	0, 0, 68, 0, 323, 91, 69, 334, 99, 365,
+	0, 0, 0, 618, 0, 621, 0, 267, 0, 307,
+	308, 0, 265, 0, 155, 0, 157, 158, 159, 160,
+	161, 162, 163, 0, 265, 0, 506, 265, 0, 339,
+	367, 0, 0, 619, 0, 271, 0, 287, 154, 156,
+	165, 0, 287, 0, 265, 62, 93, 0, 335, 0,
+	289, 0, 314, 0, 61, 509, 63, 0, 0, 0,
+	166, 0, 620, 0, 0, 0, 309, 368, 369,
 }
 
 var yyTok1 = [...]int{
@@ -4450,831 +4457,831 @@ yydefault:
 		{
 			yyVAL.bytes = nil
 		}
-	case 180:
+	case 178:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1197
+//line sqlparser/parser.y:1195
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 			yyVAL.columnType.Length = yyDollar[2].optVal
 		}
-	case 181:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1202
+//line sqlparser/parser.y:1200
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 		}
+	case 180:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1206
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+		}
+	case 181:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1210
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+		}
 	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1208
+//line sqlparser/parser.y:1214
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 183:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1212
+//line sqlparser/parser.y:1218
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 184:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1216
+//line sqlparser/parser.y:1222
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 185:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1220
+//line sqlparser/parser.y:1226
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 186:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1224
+//line sqlparser/parser.y:1230
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1228
+//line sqlparser/parser.y:1234
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 188:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1232
+//line sqlparser/parser.y:1238
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1236
+//line sqlparser/parser.y:1242
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 190:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1240
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
-		}
-	case 191:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1244
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
-		}
-	case 192:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1250
+//line sqlparser/parser.y:1248
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 193:
+	case 191:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1256
+//line sqlparser/parser.y:1254
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 			yyVAL.columnType.Length = yyDollar[3].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[3].LengthScaleOption.Scale
 		}
-	case 194:
+	case 192:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1262
+//line sqlparser/parser.y:1260
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 195:
+	case 193:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1268
+//line sqlparser/parser.y:1266
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 196:
+	case 194:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1274
+//line sqlparser/parser.y:1272
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 197:
+	case 195:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1280
+//line sqlparser/parser.y:1278
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 198:
+	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1286
+//line sqlparser/parser.y:1284
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 199:
+	case 197:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1290
+//line sqlparser/parser.y:1288
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 200:
+	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1296
+//line sqlparser/parser.y:1294
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 201:
+	case 199:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:1298
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
+		}
+	case 200:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1300
+//line sqlparser/parser.y:1302
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
+	case 201:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:1306
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+		}
 	case 202:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1304
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1310
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 203:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1308
+//line sqlparser/parser.y:1314
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1312
+//line sqlparser/parser.y:1318
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 205:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1316
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1322
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1320
+//line sqlparser/parser.y:1328
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1324
+//line sqlparser/parser.y:1332
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 208:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1330
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:1338
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 209:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1334
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:1342
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 210:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1340
+//line sqlparser/parser.y:1346
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 211:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1344
+//line sqlparser/parser.y:1350
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 212:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1348
+//line sqlparser/parser.y:1354
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 213:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1352
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1358
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 214:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1356
+		yyDollar = yyS[yypt-5 : yypt+1]
+//line sqlparser/parser.y:1362
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Length: yyDollar[3].optVal, Charset: yyDollar[4].str, Collate: yyDollar[5].str}
 		}
 	case 215:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1360
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:1366
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 216:
-		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1364
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:1370
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Length: yyDollar[3].optVal, Charset: yyDollar[4].str, Collate: yyDollar[5].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 217:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1368
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:1374
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 218:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1372
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:1378
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 219:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1376
+//line sqlparser/parser.y:1382
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 220:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1380
+//line sqlparser/parser.y:1386
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 221:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1384
+//line sqlparser/parser.y:1390
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 222:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1388
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1394
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 223:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1392
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1398
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 224:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1396
+//line sqlparser/parser.y:1402
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1400
+//line sqlparser/parser.y:1406
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1404
+//line sqlparser/parser.y:1410
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 227:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1408
+//line sqlparser/parser.y:1414
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1412
+//line sqlparser/parser.y:1418
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 229:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1416
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line sqlparser/parser.y:1422
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
 	case 230:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1420
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line sqlparser/parser.y:1427
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
 	case 231:
-		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1424
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1433
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 232:
-		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1429
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1437
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1435
+//line sqlparser/parser.y:1441
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1439
+//line sqlparser/parser.y:1445
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1443
+//line sqlparser/parser.y:1449
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1447
+//line sqlparser/parser.y:1453
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1451
+//line sqlparser/parser.y:1457
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1455
+//line sqlparser/parser.y:1461
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1459
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
-		}
-	case 240:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1463
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
-		}
-	case 241:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1469
+//line sqlparser/parser.y:1467
 		{
 			yyVAL.strs = make([]string, 0, 4)
 			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
 		}
-	case 242:
+	case 240:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1474
+//line sqlparser/parser.y:1472
 		{
 			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
 		}
-	case 243:
+	case 241:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1479
+//line sqlparser/parser.y:1477
 		{
 			yyVAL.optVal = nil
 		}
-	case 244:
+	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1483
+//line sqlparser/parser.y:1481
 		{
 			yyVAL.optVal = NewIntVal(yyDollar[2].bytes)
 		}
-	case 245:
+	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1488
+//line sqlparser/parser.y:1486
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
-	case 246:
+	case 244:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1492
+//line sqlparser/parser.y:1490
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 				Scale:  NewIntVal(yyDollar[4].bytes),
 			}
 		}
-	case 247:
+	case 245:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1500
+//line sqlparser/parser.y:1498
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
-	case 248:
+	case 246:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1504
+//line sqlparser/parser.y:1502
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 			}
 		}
-	case 249:
+	case 247:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1510
+//line sqlparser/parser.y:1508
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 				Scale:  NewIntVal(yyDollar[4].bytes),
 			}
 		}
-	case 250:
+	case 248:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1518
+//line sqlparser/parser.y:1516
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 251:
+	case 249:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1522
+//line sqlparser/parser.y:1520
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 252:
+	case 250:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1526
+//line sqlparser/parser.y:1524
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 253:
+	case 251:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1531
+//line sqlparser/parser.y:1529
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 254:
+	case 252:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1535
+//line sqlparser/parser.y:1533
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 255:
+	case 253:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1540
+//line sqlparser/parser.y:1538
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 256:
+	case 254:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1544
+//line sqlparser/parser.y:1542
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 257:
+	case 255:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1549
+//line sqlparser/parser.y:1547
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 258:
+	case 256:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1553
+//line sqlparser/parser.y:1551
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 259:
+	case 257:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1557
+//line sqlparser/parser.y:1555
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 260:
+	case 258:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1562
+//line sqlparser/parser.y:1560
 		{
 			yyVAL.str = ""
 		}
-	case 261:
+	case 259:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1566
+//line sqlparser/parser.y:1564
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
-	case 262:
+	case 260:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1570
+//line sqlparser/parser.y:1568
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
-	case 263:
+	case 261:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1575
+//line sqlparser/parser.y:1573
 		{
 			yyVAL.str = ""
 		}
-	case 264:
+	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1579
+//line sqlparser/parser.y:1577
 		{
 			yyVAL.str = string(yyDollar[1].bytes) // Set pseudo collation "binary" for BINARY attribute (deprecated in future MySQL versions)
 		}
-	case 265:
+	case 263:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1583
+//line sqlparser/parser.y:1581
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 266:
+	case 264:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1589
+//line sqlparser/parser.y:1587
 		{
 			yyVAL.indexDefinition = &IndexDefinition{Info: yyDollar[1].indexInfo, Columns: yyDollar[3].indexColumns, Options: yyDollar[5].indexOptions, Partition: yyDollar[6].indexPartition}
 		}
-	case 267:
+	case 265:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1594
+//line sqlparser/parser.y:1592
 		{
 			yyVAL.indexOptions = []*IndexOption{}
 		}
-	case 268:
+	case 266:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1598
+//line sqlparser/parser.y:1596
 		{
 			yyVAL.indexOptions = yyDollar[1].indexOptions
 		}
-	case 269:
+	case 267:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1602
+//line sqlparser/parser.y:1600
 		{
 			yyVAL.indexOptions = yyDollar[3].indexOptions
 		}
-	case 270:
+	case 268:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1608
+//line sqlparser/parser.y:1606
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
-	case 271:
+	case 269:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1612
+//line sqlparser/parser.y:1610
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[2].indexOption)
 		}
-	case 272:
+	case 270:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1618
+//line sqlparser/parser.y:1616
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
-	case 273:
+	case 271:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1622
+//line sqlparser/parser.y:1620
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[3].indexOption)
 		}
-	case 274:
+	case 272:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1628
+//line sqlparser/parser.y:1626
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Using: string(yyDollar[2].bytes)}
 		}
-	case 275:
+	case 273:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1632
+//line sqlparser/parser.y:1630
 		{
 			// should not be string
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
-	case 276:
+	case 274:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1637
+//line sqlparser/parser.y:1635
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewStrVal(yyDollar[2].bytes)}
 		}
-	case 277:
+	case 275:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1641
+//line sqlparser/parser.y:1639
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[2].bytes), Value: NewStrVal([]byte(yyDollar[3].colIdent.String()))}
 		}
-	case 278:
+	case 276:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1645
+//line sqlparser/parser.y:1643
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 279:
+	case 277:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1649
+//line sqlparser/parser.y:1647
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
-	case 280:
+	case 278:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1653
+//line sqlparser/parser.y:1651
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 281:
+	case 279:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1657
+//line sqlparser/parser.y:1655
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 282:
+	case 280:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1661
+//line sqlparser/parser.y:1659
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 283:
+	case 281:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1665
+//line sqlparser/parser.y:1663
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 284:
+	case 282:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1669
+//line sqlparser/parser.y:1667
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 285:
+	case 283:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1675
+//line sqlparser/parser.y:1673
 		{
 			yyVAL.str = ""
 		}
-	case 286:
+	case 284:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1679
+//line sqlparser/parser.y:1677
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 287:
+	case 285:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1685
+//line sqlparser/parser.y:1683
 		{
 			yyVAL.optVal = NewBoolSQLVal(true)
 		}
-	case 288:
+	case 286:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1689
+//line sqlparser/parser.y:1687
 		{
 			yyVAL.optVal = NewBoolSQLVal(false)
 		}
-	case 289:
+	case 287:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1695
+//line sqlparser/parser.y:1693
 		{
 			yyVAL.indexPartition = nil
 		}
-	case 290:
+	case 288:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1699
+//line sqlparser/parser.y:1697
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String()}
 		}
-	case 291:
+	case 289:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1703
+//line sqlparser/parser.y:1701
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String(), Column: yyDollar[4].colIdent.String()}
 		}
-	case 292:
+	case 290:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1709
+//line sqlparser/parser.y:1707
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
 		}
-	case 293:
+	case 291:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1713
+//line sqlparser/parser.y:1711
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Spatial: true, Unique: false}
 		}
-	case 294:
+	case 292:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1717
+//line sqlparser/parser.y:1715
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Fulltext: true}
 		}
-	case 295:
+	case 293:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1721
+//line sqlparser/parser.y:1719
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Fulltext: true}
 		}
-	case 296:
+	case 294:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1725
+//line sqlparser/parser.y:1723
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Unique: true}
 		}
-	case 297:
+	case 295:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1729
+//line sqlparser/parser.y:1727
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true}
 		}
-	case 298:
+	case 296:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1733
+//line sqlparser/parser.y:1731
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: yyDollar[3].str == "clustered"}
 		}
-	case 299:
+	case 297:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1737
+//line sqlparser/parser.y:1735
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: yyDollar[4].str == "clustered"}
 		}
-	case 300:
+	case 298:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1743
+//line sqlparser/parser.y:1741
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 301:
+	case 299:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1747
+//line sqlparser/parser.y:1745
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 302:
+	case 300:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1753
+//line sqlparser/parser.y:1751
 		{
 			yyVAL.indexColumns = []IndexColumn{yyDollar[1].indexColumn}
 		}
-	case 303:
+	case 301:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1757
+//line sqlparser/parser.y:1755
 		{
 			yyVAL.indexColumns = append(yyVAL.indexColumns, yyDollar[3].indexColumn)
 		}
-	case 304:
+	case 302:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1763
+//line sqlparser/parser.y:1761
 		{
 			yyVAL.indexColumn = IndexColumn{Column: yyDollar[1].colIdent, Length: yyDollar[2].optVal, Direction: yyDollar[3].str}
 		}
-	case 305:
+	case 303:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1768
+//line sqlparser/parser.y:1766
 		{
 			yyVAL.indexColumn = IndexColumn{Column: NewColIdent(string(yyDollar[1].bytes)), Length: yyDollar[2].optVal}
 		}
-	case 306:
+	case 304:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1774
+//line sqlparser/parser.y:1772
 		{
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[2].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 307:
+	case 305:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1779
+//line sqlparser/parser.y:1777
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[5].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 308:
+	case 306:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1786
+//line sqlparser/parser.y:1784
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[5].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 309:
+	case 307:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1793
+//line sqlparser/parser.y:1791
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[8].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 310:
+	case 308:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1800
+//line sqlparser/parser.y:1798
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[8].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 311:
+	case 309:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1809
+//line sqlparser/parser.y:1807
 		{
 			yyVAL.foreignKeyDefinition = &ForeignKeyDefinition{
 				ConstraintName:   yyDollar[2].colIdent,
@@ -5284,33 +5291,33 @@ yydefault:
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
-	case 312:
+	case 310:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1821
+//line sqlparser/parser.y:1819
 		{
 			yyVAL.colIdent = NewColIdent("RESTRICT")
 		}
-	case 313:
+	case 311:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1825
+//line sqlparser/parser.y:1823
 		{
 			yyVAL.colIdent = NewColIdent("CASCADE")
 		}
-	case 314:
+	case 312:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1829
+//line sqlparser/parser.y:1827
 		{
 			yyVAL.colIdent = NewColIdent("SET NULL")
 		}
-	case 315:
+	case 313:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1833
+//line sqlparser/parser.y:1831
 		{
 			yyVAL.colIdent = NewColIdent("NO ACTION")
 		}
-	case 316:
+	case 314:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:1839
+//line sqlparser/parser.y:1837
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
 				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].str != "nonclustered"}, // CLUSTERED by default
@@ -5319,117 +5326,117 @@ yydefault:
 				Partition: yyDollar[10].indexPartition,
 			}
 		}
-	case 317:
+	case 315:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1850
+//line sqlparser/parser.y:1848
 		{
 			yyVAL.str = ""
 		}
-	case 318:
+	case 316:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1854
+//line sqlparser/parser.y:1852
 		{
 			yyVAL.str = "clustered"
 		}
-	case 319:
+	case 317:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1858
+//line sqlparser/parser.y:1856
 		{
 			yyVAL.str = "nonclustered"
 		}
-	case 320:
+	case 318:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1864
+//line sqlparser/parser.y:1862
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 321:
+	case 319:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1868
+//line sqlparser/parser.y:1866
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 322:
+	case 320:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1873
+//line sqlparser/parser.y:1871
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
-	case 324:
+	case 322:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1880
+//line sqlparser/parser.y:1878
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
-	case 325:
+	case 323:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1884
+//line sqlparser/parser.y:1882
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
-	case 326:
+	case 324:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1889
+//line sqlparser/parser.y:1887
 		{
 			yyVAL.str = ""
 		}
-	case 327:
+	case 325:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1893
+//line sqlparser/parser.y:1891
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
-	case 328:
+	case 326:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1897
+//line sqlparser/parser.y:1895
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
-	case 329:
+	case 327:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1905
+//line sqlparser/parser.y:1903
 		{
 			yyVAL.str = yyDollar[1].str
 		}
-	case 330:
+	case 328:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1909
+//line sqlparser/parser.y:1907
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
-	case 331:
+	case 329:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1913
+//line sqlparser/parser.y:1911
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
-	case 332:
+	case 330:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1919
+//line sqlparser/parser.y:1917
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
-	case 333:
+	case 331:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1923
+//line sqlparser/parser.y:1921
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
-	case 334:
+	case 332:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1927
+//line sqlparser/parser.y:1925
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 335:
+	case 333:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1933
+//line sqlparser/parser.y:1931
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 336:
+	case 334:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1937
+//line sqlparser/parser.y:1935
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5443,9 +5450,9 @@ yydefault:
 				IndexCols: yyDollar[10].indexColumns,
 			}
 		}
-	case 337:
+	case 335:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1951
+//line sqlparser/parser.y:1949
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5459,9 +5466,9 @@ yydefault:
 				IndexCols: yyDollar[12].indexColumns,
 			}
 		}
-	case 338:
+	case 336:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1965
+//line sqlparser/parser.y:1963
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5470,21 +5477,21 @@ yydefault:
 				ForeignKey: yyDollar[7].foreignKeyDefinition,
 			}
 		}
-	case 339:
+	case 337:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1974
+//line sqlparser/parser.y:1972
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 340:
+	case 338:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1978
+//line sqlparser/parser.y:1976
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 341:
+	case 339:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:1982
+//line sqlparser/parser.y:1980
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5497,9 +5504,9 @@ yydefault:
 				VindexCols: yyDollar[9].columns,
 			}
 		}
-	case 342:
+	case 340:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1995
+//line sqlparser/parser.y:1993
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5509,71 +5516,71 @@ yydefault:
 				},
 			}
 		}
-	case 343:
+	case 341:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2005
+//line sqlparser/parser.y:2003
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
-	case 344:
+	case 342:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2010
+//line sqlparser/parser.y:2008
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 345:
+	case 343:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2015
+//line sqlparser/parser.y:2013
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
-	case 346:
+	case 344:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2019
+//line sqlparser/parser.y:2017
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
-	case 367:
+	case 365:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2051
+//line sqlparser/parser.y:2049
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
-	case 368:
+	case 366:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2057
+//line sqlparser/parser.y:2055
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
-	case 369:
+	case 367:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2061
+//line sqlparser/parser.y:2059
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
-	case 370:
+	case 368:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2067
+//line sqlparser/parser.y:2065
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
-	case 371:
+	case 369:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2071
+//line sqlparser/parser.y:2069
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
-	case 372:
+	case 370:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2077
+//line sqlparser/parser.y:2075
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 373:
+	case 371:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2083
+//line sqlparser/parser.y:2081
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5581,16 +5588,16 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName, IfExists: exists}
 		}
-	case 374:
+	case 372:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2091
+//line sqlparser/parser.y:2089
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 375:
+	case 373:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2096
+//line sqlparser/parser.y:2094
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5598,123 +5605,123 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName.ToViewName(), IfExists: exists}
 		}
-	case 376:
+	case 374:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2104
+//line sqlparser/parser.y:2102
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 377:
+	case 375:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2108
+//line sqlparser/parser.y:2106
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 378:
+	case 376:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2114
+//line sqlparser/parser.y:2112
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
-	case 379:
+	case 377:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2118
+//line sqlparser/parser.y:2116
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
-	case 380:
+	case 378:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2123
+//line sqlparser/parser.y:2121
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
-	case 381:
+	case 379:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2129
+//line sqlparser/parser.y:2127
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 382:
+	case 380:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2133
+//line sqlparser/parser.y:2131
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 383:
+	case 381:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2137
+//line sqlparser/parser.y:2135
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 384:
+	case 382:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2142
+//line sqlparser/parser.y:2140
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 385:
+	case 383:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2146
+//line sqlparser/parser.y:2144
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 386:
+	case 384:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2150
+//line sqlparser/parser.y:2148
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 387:
+	case 385:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2154
+//line sqlparser/parser.y:2152
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 388:
+	case 386:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2158
+//line sqlparser/parser.y:2156
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 389:
+	case 387:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2162
+//line sqlparser/parser.y:2160
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 390:
+	case 388:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2166
+//line sqlparser/parser.y:2164
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 391:
+	case 389:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2170
+//line sqlparser/parser.y:2168
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 392:
+	case 390:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2174
+//line sqlparser/parser.y:2172
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 393:
+	case 391:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2178
+//line sqlparser/parser.y:2176
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 394:
+	case 392:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2182
+//line sqlparser/parser.y:2180
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 395:
+	case 393:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2186
+//line sqlparser/parser.y:2184
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5724,604 +5731,604 @@ yydefault:
 				yyVAL.statement = &Show{Type: yyDollar[4].str, ShowTablesOpt: showTablesOpt}
 			}
 		}
-	case 396:
+	case 394:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2196
+//line sqlparser/parser.y:2194
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 397:
+	case 395:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2200
+//line sqlparser/parser.y:2198
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 398:
+	case 396:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2204
+//line sqlparser/parser.y:2202
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
-	case 399:
+	case 397:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2208
+//line sqlparser/parser.y:2206
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 400:
+	case 398:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2212
+//line sqlparser/parser.y:2210
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 401:
+	case 399:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2216
+//line sqlparser/parser.y:2214
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 402:
+	case 400:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2220
+//line sqlparser/parser.y:2218
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 403:
+	case 401:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2230
+//line sqlparser/parser.y:2228
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 404:
+	case 402:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2236
+//line sqlparser/parser.y:2234
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 405:
+	case 403:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2240
+//line sqlparser/parser.y:2238
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 406:
+	case 404:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2246
+//line sqlparser/parser.y:2244
 		{
 			yyVAL.str = ""
 		}
-	case 407:
+	case 405:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2250
+//line sqlparser/parser.y:2248
 		{
 			yyVAL.str = "extended "
 		}
-	case 408:
+	case 406:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2256
+//line sqlparser/parser.y:2254
 		{
 			yyVAL.str = ""
 		}
-	case 409:
+	case 407:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2260
+//line sqlparser/parser.y:2258
 		{
 			yyVAL.str = "full "
 		}
-	case 410:
+	case 408:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2266
+//line sqlparser/parser.y:2264
 		{
 			yyVAL.str = ""
 		}
-	case 411:
+	case 409:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2270
+//line sqlparser/parser.y:2268
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 412:
+	case 410:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2274
+//line sqlparser/parser.y:2272
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 413:
+	case 411:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2280
+//line sqlparser/parser.y:2278
 		{
 			yyVAL.showFilter = nil
 		}
-	case 414:
+	case 412:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2284
+//line sqlparser/parser.y:2282
 		{
 			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
-	case 415:
+	case 413:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2288
+//line sqlparser/parser.y:2286
 		{
 			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
-	case 416:
+	case 414:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2294
+//line sqlparser/parser.y:2292
 		{
 			yyVAL.str = ""
 		}
-	case 417:
+	case 415:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2298
+//line sqlparser/parser.y:2296
 		{
 			yyVAL.str = SessionStr
 		}
-	case 418:
+	case 416:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2302
+//line sqlparser/parser.y:2300
 		{
 			yyVAL.str = GlobalStr
 		}
-	case 419:
+	case 417:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2308
+//line sqlparser/parser.y:2306
 		{
 			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
-	case 420:
+	case 418:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2312
+//line sqlparser/parser.y:2310
 		{
 			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
-	case 421:
+	case 419:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2318
+//line sqlparser/parser.y:2316
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 422:
+	case 420:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2322
+//line sqlparser/parser.y:2320
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 423:
+	case 421:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2328
+//line sqlparser/parser.y:2326
 		{
 			yyVAL.statement = &Commit{}
 		}
-	case 424:
+	case 422:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2334
+//line sqlparser/parser.y:2332
 		{
 			yyVAL.statement = &Rollback{}
 		}
-	case 425:
+	case 423:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2340
+//line sqlparser/parser.y:2338
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 426:
+	case 424:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2344
+//line sqlparser/parser.y:2342
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 427:
+	case 425:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2348
+//line sqlparser/parser.y:2346
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 428:
+	case 426:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2352
+//line sqlparser/parser.y:2350
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 429:
+	case 427:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2356
+//line sqlparser/parser.y:2354
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 430:
+	case 428:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2361
+//line sqlparser/parser.y:2359
 		{
 			setAllowComments(yylex, true)
 		}
-	case 431:
+	case 429:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2365
+//line sqlparser/parser.y:2363
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
-	case 432:
+	case 430:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2371
+//line sqlparser/parser.y:2369
 		{
 			yyVAL.bytes2 = nil
 		}
-	case 433:
+	case 431:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2375
+//line sqlparser/parser.y:2373
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
-	case 434:
+	case 432:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2381
+//line sqlparser/parser.y:2379
 		{
 			yyVAL.str = UnionStr
 		}
-	case 435:
+	case 433:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2385
+//line sqlparser/parser.y:2383
 		{
 			yyVAL.str = UnionAllStr
 		}
-	case 436:
+	case 434:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2389
+//line sqlparser/parser.y:2387
 		{
 			yyVAL.str = UnionDistinctStr
 		}
-	case 437:
+	case 435:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2394
+//line sqlparser/parser.y:2392
 		{
 			yyVAL.str = ""
 		}
-	case 438:
+	case 436:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2398
+//line sqlparser/parser.y:2396
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
-	case 439:
+	case 437:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2402
+//line sqlparser/parser.y:2400
 		{
 			yyVAL.str = SQLCacheStr
 		}
-	case 440:
+	case 438:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2407
+//line sqlparser/parser.y:2405
 		{
 			yyVAL.str = ""
 		}
-	case 441:
+	case 439:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2411
+//line sqlparser/parser.y:2409
 		{
 			yyVAL.str = DistinctStr
 		}
-	case 442:
+	case 440:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2416
+//line sqlparser/parser.y:2414
 		{
 			yyVAL.str = ""
 		}
-	case 443:
+	case 441:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2420
+//line sqlparser/parser.y:2418
 		{
 			yyVAL.str = StraightJoinHint
 		}
-	case 444:
+	case 442:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2425
+//line sqlparser/parser.y:2423
 		{
 			yyVAL.selectExprs = nil
 		}
-	case 445:
+	case 443:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2429
+//line sqlparser/parser.y:2427
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
-	case 446:
+	case 444:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2435
+//line sqlparser/parser.y:2433
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
-	case 447:
+	case 445:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2439
+//line sqlparser/parser.y:2437
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
-	case 448:
+	case 446:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2445
+//line sqlparser/parser.y:2443
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
-	case 449:
+	case 447:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2449
+//line sqlparser/parser.y:2447
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
-	case 450:
+	case 448:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2453
+//line sqlparser/parser.y:2451
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
-	case 451:
+	case 449:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2457
+//line sqlparser/parser.y:2455
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
-	case 452:
+	case 450:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2462
+//line sqlparser/parser.y:2460
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
-	case 453:
+	case 451:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2466
+//line sqlparser/parser.y:2464
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
-	case 454:
+	case 452:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2470
+//line sqlparser/parser.y:2468
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
-	case 456:
+	case 454:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2477
+//line sqlparser/parser.y:2475
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 457:
+	case 455:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2482
+//line sqlparser/parser.y:2480
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
-	case 458:
+	case 456:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2486
+//line sqlparser/parser.y:2484
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
-	case 459:
+	case 457:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2492
+//line sqlparser/parser.y:2490
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
-	case 460:
+	case 458:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2496
+//line sqlparser/parser.y:2494
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
-	case 463:
+	case 461:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2506
+//line sqlparser/parser.y:2504
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
-	case 464:
+	case 462:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2510
+//line sqlparser/parser.y:2508
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
-	case 465:
+	case 463:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2514
+//line sqlparser/parser.y:2512
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
-	case 466:
+	case 464:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2520
+//line sqlparser/parser.y:2518
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
-	case 467:
+	case 465:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2524
+//line sqlparser/parser.y:2522
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
-	case 468:
+	case 466:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2530
+//line sqlparser/parser.y:2528
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 469:
+	case 467:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2535
+//line sqlparser/parser.y:2533
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
-	case 470:
+	case 468:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2539
+//line sqlparser/parser.y:2537
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 471:
+	case 469:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2545
+//line sqlparser/parser.y:2543
 		{
 			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
-	case 472:
+	case 470:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2549
+//line sqlparser/parser.y:2547
 		{
 			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
-	case 473:
+	case 471:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2562
+//line sqlparser/parser.y:2560
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 474:
+	case 472:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2566
+//line sqlparser/parser.y:2564
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 475:
+	case 473:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2570
+//line sqlparser/parser.y:2568
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 476:
+	case 474:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2574
+//line sqlparser/parser.y:2572
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
 		}
-	case 477:
+	case 475:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2580
+//line sqlparser/parser.y:2578
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 478:
+	case 476:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2582
+//line sqlparser/parser.y:2580
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
-	case 479:
+	case 477:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2586
+//line sqlparser/parser.y:2584
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 480:
+	case 478:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2588
+//line sqlparser/parser.y:2586
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
-	case 481:
+	case 479:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2592
+//line sqlparser/parser.y:2590
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 482:
+	case 480:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2594
+//line sqlparser/parser.y:2592
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 483:
+	case 481:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2597
+//line sqlparser/parser.y:2595
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 484:
+	case 482:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2599
+//line sqlparser/parser.y:2597
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 485:
+	case 483:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2602
+//line sqlparser/parser.y:2600
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
-	case 486:
+	case 484:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2606
+//line sqlparser/parser.y:2604
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
-	case 487:
+	case 485:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2610
+//line sqlparser/parser.y:2608
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
-	case 489:
+	case 487:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2617
+//line sqlparser/parser.y:2615
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 490:
+	case 488:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2623
+//line sqlparser/parser.y:2621
 		{
 			yyVAL.str = JoinStr
 		}
-	case 491:
+	case 489:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2627
+//line sqlparser/parser.y:2625
 		{
 			yyVAL.str = JoinStr
 		}
-	case 492:
+	case 490:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2631
+//line sqlparser/parser.y:2629
 		{
 			yyVAL.str = JoinStr
 		}
-	case 493:
+	case 491:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2637
+//line sqlparser/parser.y:2635
 		{
 			yyVAL.str = StraightJoinStr
 		}
-	case 494:
+	case 492:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2643
+//line sqlparser/parser.y:2641
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 495:
+	case 493:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2647
+//line sqlparser/parser.y:2645
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 496:
+	case 494:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2651
+//line sqlparser/parser.y:2649
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 497:
+	case 495:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2655
+//line sqlparser/parser.y:2653
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 498:
+	case 496:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2661
+//line sqlparser/parser.y:2659
 		{
 			yyVAL.str = NaturalJoinStr
 		}
-	case 499:
+	case 497:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2665
+//line sqlparser/parser.y:2663
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6329,465 +6336,465 @@ yydefault:
 				yyVAL.str = NaturalRightJoinStr
 			}
 		}
-	case 500:
+	case 498:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2675
+//line sqlparser/parser.y:2673
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
-	case 501:
+	case 499:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2679
+//line sqlparser/parser.y:2677
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
-	case 502:
+	case 500:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2685
+//line sqlparser/parser.y:2683
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
-	case 503:
+	case 501:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2689
+//line sqlparser/parser.y:2687
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
-	case 504:
+	case 502:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2694
+//line sqlparser/parser.y:2692
 		{
 			yyVAL.indexHints = nil
 		}
-	case 505:
+	case 503:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2698
+//line sqlparser/parser.y:2696
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
-	case 506:
+	case 504:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2702
+//line sqlparser/parser.y:2700
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
-	case 507:
+	case 505:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2706
+//line sqlparser/parser.y:2704
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
-	case 508:
+	case 506:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2711
+//line sqlparser/parser.y:2709
 		{
 			yyVAL.expr = nil
 		}
-	case 509:
+	case 507:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2715
+//line sqlparser/parser.y:2713
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 510:
+	case 508:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2720
+//line sqlparser/parser.y:2718
 		{
 			yyVAL.columns = nil
 		}
-	case 511:
+	case 509:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2724
+//line sqlparser/parser.y:2722
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
-	case 512:
+	case 510:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2730
+//line sqlparser/parser.y:2728
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 513:
+	case 511:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2734
+//line sqlparser/parser.y:2732
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 514:
+	case 512:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2738
+//line sqlparser/parser.y:2736
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 515:
+	case 513:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2742
+//line sqlparser/parser.y:2740
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
-	case 516:
+	case 514:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2746
+//line sqlparser/parser.y:2744
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
-	case 517:
+	case 515:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2750
+//line sqlparser/parser.y:2748
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 518:
+	case 516:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2754
+//line sqlparser/parser.y:2752
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
-	case 519:
+	case 517:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2760
+//line sqlparser/parser.y:2758
 		{
 			yyVAL.str = ""
 		}
-	case 520:
+	case 518:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2764
+//line sqlparser/parser.y:2762
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 521:
+	case 519:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2770
+//line sqlparser/parser.y:2768
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 522:
+	case 520:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2774
+//line sqlparser/parser.y:2772
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 523:
+	case 521:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2780
+//line sqlparser/parser.y:2778
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
-	case 524:
+	case 522:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2784
+//line sqlparser/parser.y:2782
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
-	case 525:
+	case 523:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2788
+//line sqlparser/parser.y:2786
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
-	case 526:
+	case 524:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2792
+//line sqlparser/parser.y:2790
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
-	case 527:
+	case 525:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2796
+//line sqlparser/parser.y:2794
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
-	case 528:
+	case 526:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2800
+//line sqlparser/parser.y:2798
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
-	case 529:
+	case 527:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2804
+//line sqlparser/parser.y:2802
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
-	case 530:
+	case 528:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2808
+//line sqlparser/parser.y:2806
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
-	case 531:
+	case 529:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2812
+//line sqlparser/parser.y:2810
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
-	case 532:
+	case 530:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2816
+//line sqlparser/parser.y:2814
 		{
 			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
-	case 533:
+	case 531:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2822
+//line sqlparser/parser.y:2820
 		{
 			yyVAL.str = IsNullStr
 		}
-	case 534:
+	case 532:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2826
+//line sqlparser/parser.y:2824
 		{
 			yyVAL.str = IsNotNullStr
 		}
-	case 535:
+	case 533:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2830
+//line sqlparser/parser.y:2828
 		{
 			yyVAL.str = IsTrueStr
 		}
-	case 536:
+	case 534:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2834
+//line sqlparser/parser.y:2832
 		{
 			yyVAL.str = IsNotTrueStr
 		}
-	case 537:
+	case 535:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2838
+//line sqlparser/parser.y:2836
 		{
 			yyVAL.str = IsFalseStr
 		}
-	case 538:
+	case 536:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2842
+//line sqlparser/parser.y:2840
 		{
 			yyVAL.str = IsNotFalseStr
 		}
-	case 539:
+	case 537:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2848
+//line sqlparser/parser.y:2846
 		{
 			yyVAL.str = EqualStr
 		}
-	case 540:
+	case 538:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2852
+//line sqlparser/parser.y:2850
 		{
 			yyVAL.str = LessThanStr
 		}
-	case 541:
+	case 539:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2856
+//line sqlparser/parser.y:2854
 		{
 			yyVAL.str = GreaterThanStr
 		}
-	case 542:
+	case 540:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2860
+//line sqlparser/parser.y:2858
 		{
 			yyVAL.str = LessEqualStr
 		}
-	case 543:
+	case 541:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2864
+//line sqlparser/parser.y:2862
 		{
 			yyVAL.str = GreaterEqualStr
 		}
-	case 544:
+	case 542:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2868
+//line sqlparser/parser.y:2866
 		{
 			yyVAL.str = NotEqualStr
 		}
-	case 545:
+	case 543:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2872
+//line sqlparser/parser.y:2870
 		{
 			yyVAL.str = NullSafeEqualStr
 		}
-	case 546:
+	case 544:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2877
+//line sqlparser/parser.y:2875
 		{
 			yyVAL.expr = nil
 		}
-	case 547:
+	case 545:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2881
+//line sqlparser/parser.y:2879
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 548:
+	case 546:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2887
+//line sqlparser/parser.y:2885
 		{
 			yyVAL.colTuple = yyDollar[1].valTuple
 		}
-	case 549:
+	case 547:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2891
+//line sqlparser/parser.y:2889
 		{
 			yyVAL.colTuple = yyDollar[1].subquery
 		}
-	case 550:
+	case 548:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2895
+//line sqlparser/parser.y:2893
 		{
 			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
-	case 551:
+	case 549:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2901
+//line sqlparser/parser.y:2899
 		{
 			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
-	case 552:
+	case 550:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2907
+//line sqlparser/parser.y:2905
 		{
 			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
-	case 553:
+	case 551:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2911
+//line sqlparser/parser.y:2909
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
-	case 554:
+	case 552:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2917
+//line sqlparser/parser.y:2915
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 555:
+	case 553:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2921
+//line sqlparser/parser.y:2919
 		{
 			yyVAL.expr = yyDollar[1].boolVal
 		}
-	case 556:
+	case 554:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2925
+//line sqlparser/parser.y:2923
 		{
 			yyVAL.expr = yyDollar[1].colName
 		}
-	case 557:
+	case 555:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2929
+//line sqlparser/parser.y:2927
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 558:
+	case 556:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2933
+//line sqlparser/parser.y:2931
 		{
 			yyVAL.expr = yyDollar[1].subquery
 		}
-	case 559:
+	case 557:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2937
+//line sqlparser/parser.y:2935
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
-	case 560:
+	case 558:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2941
+//line sqlparser/parser.y:2939
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
-	case 561:
+	case 559:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2945
+//line sqlparser/parser.y:2943
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
-	case 562:
+	case 560:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2949
+//line sqlparser/parser.y:2947
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
-	case 563:
+	case 561:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2953
+//line sqlparser/parser.y:2951
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
-	case 564:
+	case 562:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2957
+//line sqlparser/parser.y:2955
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
-	case 565:
+	case 563:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2961
+//line sqlparser/parser.y:2959
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
-	case 566:
+	case 564:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2965
+//line sqlparser/parser.y:2963
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
-	case 567:
+	case 565:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2969
+//line sqlparser/parser.y:2967
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 568:
+	case 566:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2973
+//line sqlparser/parser.y:2971
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 569:
+	case 567:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2977
+//line sqlparser/parser.y:2975
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
-	case 570:
+	case 568:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2981
+//line sqlparser/parser.y:2979
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
-	case 571:
+	case 569:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2985
+//line sqlparser/parser.y:2983
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
-	case 572:
+	case 570:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2989
+//line sqlparser/parser.y:2987
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
-	case 573:
+	case 571:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2993
+//line sqlparser/parser.y:2991
 		{
 			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
-	case 574:
+	case 572:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2997
+//line sqlparser/parser.y:2995
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 575:
+	case 573:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3001
+//line sqlparser/parser.y:2999
 		{
 			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 576:
+	case 574:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3005
+//line sqlparser/parser.y:3003
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6795,9 +6802,9 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UPlusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 577:
+	case 575:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3013
+//line sqlparser/parser.y:3011
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6811,21 +6818,21 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UMinusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 578:
+	case 576:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3027
+//line sqlparser/parser.y:3025
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
-	case 579:
+	case 577:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3031
+//line sqlparser/parser.y:3029
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
-	case 580:
+	case 578:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3035
+//line sqlparser/parser.y:3033
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6833,491 +6840,491 @@ yydefault:
 			// will be non-trivial because of grammar conflicts.
 			yyVAL.expr = &IntervalExpr{Expr: yyDollar[2].expr, Unit: yyDollar[3].colIdent.String()}
 		}
-	case 581:
+	case 579:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3043
+//line sqlparser/parser.y:3041
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType}
 		}
-	case 586:
+	case 584:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3057
+//line sqlparser/parser.y:3055
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
-	case 587:
+	case 585:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3061
+//line sqlparser/parser.y:3059
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
-	case 588:
+	case 586:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3065
+//line sqlparser/parser.y:3063
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
-	case 589:
+	case 587:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3075
+//line sqlparser/parser.y:3073
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 590:
+	case 588:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3079
+//line sqlparser/parser.y:3077
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 591:
+	case 589:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3083
+//line sqlparser/parser.y:3081
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 592:
+	case 590:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3087
+//line sqlparser/parser.y:3085
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 593:
+	case 591:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3091
+//line sqlparser/parser.y:3089
 		{
 			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
-	case 594:
+	case 592:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3095
+//line sqlparser/parser.y:3093
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 595:
+	case 593:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3099
+//line sqlparser/parser.y:3097
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 596:
+	case 594:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3103
+//line sqlparser/parser.y:3101
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 597:
+	case 595:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3107
+//line sqlparser/parser.y:3105
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 598:
+	case 596:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3111
+//line sqlparser/parser.y:3109
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 599:
+	case 597:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3115
+//line sqlparser/parser.y:3113
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 600:
+	case 598:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:3119
+//line sqlparser/parser.y:3117
 		{
 			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
-	case 601:
+	case 599:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3123
+//line sqlparser/parser.y:3121
 		{
 			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
-	case 602:
+	case 600:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3127
+//line sqlparser/parser.y:3125
 		{
 			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
-	case 603:
+	case 601:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3131
+//line sqlparser/parser.y:3129
 		{
 			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
-	case 604:
+	case 602:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3141
+//line sqlparser/parser.y:3139
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
-	case 605:
+	case 603:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3145
+//line sqlparser/parser.y:3143
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
-	case 606:
+	case 604:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3149
+//line sqlparser/parser.y:3147
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
-	case 607:
+	case 605:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3153
+//line sqlparser/parser.y:3151
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
-	case 608:
+	case 606:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3158
+//line sqlparser/parser.y:3156
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
-	case 609:
+	case 607:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3163
+//line sqlparser/parser.y:3161
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
-	case 610:
+	case 608:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3168
+//line sqlparser/parser.y:3166
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
-	case 611:
+	case 609:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3173
+//line sqlparser/parser.y:3171
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
 		}
-	case 612:
+	case 610:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3177
+//line sqlparser/parser.y:3175
 		{
 			yyVAL.expr = &ConvertExpr{Type: yyDollar[2].convertType}
 		}
-	case 615:
+	case 613:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3191
+//line sqlparser/parser.y:3189
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 616:
+	case 614:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3195
+//line sqlparser/parser.y:3193
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 617:
+	case 615:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3199
+//line sqlparser/parser.y:3197
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 618:
+	case 616:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3203
+//line sqlparser/parser.y:3201
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 619:
+	case 617:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3209
+//line sqlparser/parser.y:3207
 		{
 			yyVAL.str = ""
 		}
-	case 620:
+	case 618:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3213
+//line sqlparser/parser.y:3211
 		{
 			yyVAL.str = BooleanModeStr
 		}
-	case 621:
+	case 619:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3217
+//line sqlparser/parser.y:3215
 		{
 			yyVAL.str = NaturalLanguageModeStr
 		}
-	case 622:
+	case 620:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3221
+//line sqlparser/parser.y:3219
 		{
 			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
-	case 623:
+	case 621:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3225
+//line sqlparser/parser.y:3223
 		{
 			yyVAL.str = QueryExpansionStr
 		}
-	case 624:
+	case 622:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3231
+//line sqlparser/parser.y:3229
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 625:
+	case 623:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3235
+//line sqlparser/parser.y:3233
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 626:
+	case 624:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3241
+//line sqlparser/parser.y:3239
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 627:
+	case 625:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3245
+//line sqlparser/parser.y:3243
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
-	case 628:
+	case 626:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3249
+//line sqlparser/parser.y:3247
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
-	case 629:
+	case 627:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3253
+//line sqlparser/parser.y:3251
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 630:
+	case 628:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3257
+//line sqlparser/parser.y:3255
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 631:
+	case 629:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3261
+//line sqlparser/parser.y:3259
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 632:
+	case 630:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3267
+//line sqlparser/parser.y:3265
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 633:
+	case 631:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3271
+//line sqlparser/parser.y:3269
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 634:
+	case 632:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3275
+//line sqlparser/parser.y:3273
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 635:
+	case 633:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3279
+//line sqlparser/parser.y:3277
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 636:
+	case 634:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3283
+//line sqlparser/parser.y:3281
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 637:
+	case 635:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3287
+//line sqlparser/parser.y:3285
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 638:
+	case 636:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3291
+//line sqlparser/parser.y:3289
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 639:
+	case 637:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3295
+//line sqlparser/parser.y:3293
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 640:
+	case 638:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3301
+//line sqlparser/parser.y:3299
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 641:
+	case 639:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3305
+//line sqlparser/parser.y:3303
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
-	case 642:
+	case 640:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3309
+//line sqlparser/parser.y:3307
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 643:
+	case 641:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3313
+//line sqlparser/parser.y:3311
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 644:
+	case 642:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3317
+//line sqlparser/parser.y:3315
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 645:
+	case 643:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3321
+//line sqlparser/parser.y:3319
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 646:
+	case 644:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3325
+//line sqlparser/parser.y:3323
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 647:
+	case 645:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3330
+//line sqlparser/parser.y:3328
 		{
 			yyVAL.expr = nil
 		}
-	case 648:
+	case 646:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3334
+//line sqlparser/parser.y:3332
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 649:
+	case 647:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3339
+//line sqlparser/parser.y:3337
 		{
 			yyVAL.str = string("")
 		}
-	case 650:
+	case 648:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3343
+//line sqlparser/parser.y:3341
 		{
 			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
 		}
-	case 651:
+	case 649:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3349
+//line sqlparser/parser.y:3347
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
-	case 652:
+	case 650:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3353
+//line sqlparser/parser.y:3351
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
-	case 653:
+	case 651:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3359
+//line sqlparser/parser.y:3357
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
-	case 654:
+	case 652:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3364
+//line sqlparser/parser.y:3362
 		{
 			yyVAL.expr = nil
 		}
-	case 655:
+	case 653:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3368
+//line sqlparser/parser.y:3366
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 656:
+	case 654:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3374
+//line sqlparser/parser.y:3372
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
-	case 657:
+	case 655:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3378
+//line sqlparser/parser.y:3376
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
-	case 658:
+	case 656:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3382
+//line sqlparser/parser.y:3380
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
-	case 659:
+	case 657:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3388
+//line sqlparser/parser.y:3386
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 660:
+	case 658:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3392
+//line sqlparser/parser.y:3390
 		{
 			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
-	case 661:
+	case 659:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3396
+//line sqlparser/parser.y:3394
 		{
 			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
-	case 662:
+	case 660:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3400
+//line sqlparser/parser.y:3398
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 663:
+	case 661:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3404
+//line sqlparser/parser.y:3402
 		{
 			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
-	case 664:
+	case 662:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3408
+//line sqlparser/parser.y:3406
 		{
 			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
-	case 665:
+	case 663:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3412
+//line sqlparser/parser.y:3410
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 666:
+	case 664:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3416
+//line sqlparser/parser.y:3414
 		{
 			yyVAL.expr = &NullVal{}
 		}
-	case 667:
+	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3422
+//line sqlparser/parser.y:3420
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7326,239 +7333,239 @@ yydefault:
 			}
 			yyVAL.expr = NewIntVal([]byte("1"))
 		}
-	case 668:
+	case 666:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3431
+//line sqlparser/parser.y:3429
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 669:
+	case 667:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3435
+//line sqlparser/parser.y:3433
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 670:
+	case 668:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3440
+//line sqlparser/parser.y:3438
 		{
 			yyVAL.exprs = nil
 		}
-	case 671:
+	case 669:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3444
+//line sqlparser/parser.y:3442
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
-	case 672:
+	case 670:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3449
+//line sqlparser/parser.y:3447
 		{
 			yyVAL.expr = nil
 		}
-	case 673:
+	case 671:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3453
+//line sqlparser/parser.y:3451
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 674:
+	case 672:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3458
+//line sqlparser/parser.y:3456
 		{
 			yyVAL.orderBy = nil
 		}
-	case 675:
+	case 673:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3462
+//line sqlparser/parser.y:3460
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
-	case 676:
+	case 674:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3468
+//line sqlparser/parser.y:3466
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
-	case 677:
+	case 675:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3472
+//line sqlparser/parser.y:3470
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
-	case 678:
+	case 676:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3478
+//line sqlparser/parser.y:3476
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
-	case 679:
+	case 677:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3483
+//line sqlparser/parser.y:3481
 		{
 			yyVAL.str = AscScr
 		}
-	case 680:
+	case 678:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3487
+//line sqlparser/parser.y:3485
 		{
 			yyVAL.str = AscScr
 		}
-	case 681:
+	case 679:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3491
+//line sqlparser/parser.y:3489
 		{
 			yyVAL.str = DescScr
 		}
-	case 682:
+	case 680:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3496
+//line sqlparser/parser.y:3494
 		{
 			yyVAL.limit = nil
 		}
-	case 683:
+	case 681:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3500
+//line sqlparser/parser.y:3498
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
-	case 684:
+	case 682:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3504
+//line sqlparser/parser.y:3502
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
-	case 685:
+	case 683:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3508
+//line sqlparser/parser.y:3506
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
-	case 686:
+	case 684:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3513
+//line sqlparser/parser.y:3511
 		{
 			yyVAL.str = ""
 		}
-	case 687:
+	case 685:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3517
+//line sqlparser/parser.y:3515
 		{
 			yyVAL.str = ForUpdateStr
 		}
-	case 688:
+	case 686:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3521
+//line sqlparser/parser.y:3519
 		{
 			yyVAL.str = ShareModeStr
 		}
-	case 689:
+	case 687:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3534
+//line sqlparser/parser.y:3532
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
-	case 690:
+	case 688:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3538
+//line sqlparser/parser.y:3536
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
-	case 691:
+	case 689:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3542
+//line sqlparser/parser.y:3540
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
-	case 692:
+	case 690:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3547
+//line sqlparser/parser.y:3545
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
-	case 693:
+	case 691:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3551
+//line sqlparser/parser.y:3549
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
-	case 694:
+	case 692:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3555
+//line sqlparser/parser.y:3553
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
-	case 695:
+	case 693:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3562
+//line sqlparser/parser.y:3560
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 696:
+	case 694:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3566
+//line sqlparser/parser.y:3564
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
-	case 697:
+	case 695:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3570
+//line sqlparser/parser.y:3568
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 698:
+	case 696:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3574
+//line sqlparser/parser.y:3572
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
-	case 699:
+	case 697:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3579
+//line sqlparser/parser.y:3577
 		{
 			yyVAL.updateExprs = nil
 		}
-	case 700:
+	case 698:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3583
+//line sqlparser/parser.y:3581
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
-	case 701:
+	case 699:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3589
+//line sqlparser/parser.y:3587
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
-	case 702:
+	case 700:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3593
+//line sqlparser/parser.y:3591
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
-	case 703:
+	case 701:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3599
+//line sqlparser/parser.y:3597
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
-	case 704:
+	case 702:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3603
+//line sqlparser/parser.y:3601
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
-	case 705:
+	case 703:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3609
+//line sqlparser/parser.y:3607
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
-	case 706:
+	case 704:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3615
+//line sqlparser/parser.y:3613
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7566,282 +7573,282 @@ yydefault:
 				yyVAL.expr = yyDollar[1].valTuple
 			}
 		}
-	case 707:
+	case 705:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3625
+//line sqlparser/parser.y:3623
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
-	case 708:
+	case 706:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3629
+//line sqlparser/parser.y:3627
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
-	case 709:
+	case 707:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3635
+//line sqlparser/parser.y:3633
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
-	case 710:
+	case 708:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3641
+//line sqlparser/parser.y:3639
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
-	case 711:
+	case 709:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3645
+//line sqlparser/parser.y:3643
 		{
 			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
-	case 712:
+	case 710:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3651
+//line sqlparser/parser.y:3649
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
-	case 713:
+	case 711:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3655
+//line sqlparser/parser.y:3653
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
-	case 714:
+	case 712:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3659
+//line sqlparser/parser.y:3657
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
 		}
-	case 715:
+	case 713:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3663
+//line sqlparser/parser.y:3661
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
-	case 717:
+	case 715:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3670
+//line sqlparser/parser.y:3668
 		{
 			yyVAL.bytes = []byte("charset")
 		}
-	case 719:
+	case 717:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3677
+//line sqlparser/parser.y:3675
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
-	case 720:
+	case 718:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3681
+//line sqlparser/parser.y:3679
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 721:
+	case 719:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3685
+//line sqlparser/parser.y:3683
 		{
 			yyVAL.expr = &Default{}
 		}
-	case 724:
+	case 722:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3694
+//line sqlparser/parser.y:3692
 		{
 			yyVAL.byt = 0
 		}
-	case 725:
+	case 723:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3696
+//line sqlparser/parser.y:3694
 		{
 			yyVAL.byt = 1
 		}
-	case 726:
+	case 724:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3699
+//line sqlparser/parser.y:3697
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 727:
+	case 725:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3701
+//line sqlparser/parser.y:3699
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 728:
+	case 726:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3704
+//line sqlparser/parser.y:3702
 		{
 			yyVAL.str = ""
 		}
-	case 729:
+	case 727:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3706
+//line sqlparser/parser.y:3704
 		{
 			yyVAL.str = IgnoreStr
 		}
-	case 730:
+	case 728:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3708
+		{
+			yyVAL.empty = struct{}{}
+		}
+	case 729:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3710
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 731:
+	case 730:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3712
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 732:
+	case 731:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3714
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 733:
+	case 732:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3716
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 734:
+	case 733:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3718
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 735:
+	case 734:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3720
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 736:
+	case 735:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3722
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 737:
+	case 736:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3724
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 738:
+	case 737:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3726
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 739:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3728
+	case 738:
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:3729
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 740:
-		yyDollar = yyS[yypt-0 : yypt+1]
+	case 739:
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3731
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 741:
+	case 740:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3733
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 742:
+	case 741:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3735
+//line sqlparser/parser.y:3737
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 743:
+	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3739
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 744:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3741
-		{
-			yyVAL.empty = struct{}{}
-		}
-	case 745:
+	case 743:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3745
+//line sqlparser/parser.y:3743
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 746:
+	case 744:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3749
+//line sqlparser/parser.y:3747
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 748:
+	case 746:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3756
+//line sqlparser/parser.y:3754
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 749:
+	case 747:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3762
+//line sqlparser/parser.y:3760
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 750:
+	case 748:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3766
+//line sqlparser/parser.y:3764
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 752:
+	case 750:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3773
+//line sqlparser/parser.y:3771
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 993:
+	case 991:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4039
+//line sqlparser/parser.y:4037
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
 				return 1
 			}
 		}
-	case 994:
+	case 992:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4048
+//line sqlparser/parser.y:4046
 		{
 			decNesting(yylex)
 		}
-	case 995:
+	case 993:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4053
+//line sqlparser/parser.y:4051
 		{
 			forceEOF(yylex)
 		}
-	case 996:
+	case 994:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4058
+//line sqlparser/parser.y:4056
 		{
 			forceEOF(yylex)
 		}
-	case 997:
+	case 995:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4062
+//line sqlparser/parser.y:4060
 		{
 			forceEOF(yylex)
 		}
-	case 998:
+	case 996:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4066
+//line sqlparser/parser.y:4064
 		{
 			forceEOF(yylex)
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 512d3bf..7786958 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1187,10 +1187,8 @@ character_cast_opt:
   {
     $$ = nil
   }
-| TYPECAST CHARACTER VARYING
-| TYPECAST TIMESTAMP time_zone_opt
 | TYPECAST BPCHAR
-| TYPECAST TEXT
+| TYPECAST column_type array_opt
 
 numeric_type:
   int_type length_opt
-- 
2.43.0


From 7f3cacec642cb53fcf14d2ce04117dab95e4ab64 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 48/84] fix: write the default now() as it is

It was taken for a bit value, and added to a column as b'0'.
---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 076513b..909f4b5 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4292,7 +4292,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1067
 		{
-			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
+			yyVAL.optVal = NewValArg([]byte("now()"))
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 7786958..4783b92 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1065,7 +1065,7 @@ default_val:
   }
 | NOW openb closeb
   {
-    $$ = NewBitVal($1)
+    $$ = NewValArg([]byte("now()"))
   }
 
 identity_behavior:
-- 
2.43.0


From 7f342cf7c1f6700e65c978d89538c531effd17ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 49/84] fix: write a bit default as it is

Of a default of several bits, none was left.
---
 schema/ast.go       | 1 -
 schema/generator.go | 6 +-----
 schema/parser.go    | 6 ------
 3 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/schema/ast.go b/schema/ast.go
index 0529ecf..e895d2c 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -153,7 +153,6 @@ type Value struct {
 	strVal   string  // ValueTypeStr
 	intVal   int     // ValueTypeInt
 	floatVal float64 // ValueTypeFloat
-	bitVal   bool    // ValueTypeBit
 }
 
 type ValueType int
diff --git a/schema/generator.go b/schema/generator.go
index 0d845d9..fcc1852 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1774,11 +1774,7 @@ func generateDefaultDefinition(defaultVal Value) (string, error) {
 	case ValueTypeFloat:
 		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
 	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
-		}
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeBool:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
diff --git a/schema/parser.go b/schema/parser.go
index ab84d90..d20935e 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -64,12 +64,6 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	case ValueTypeFloat:
 		floatVal, _ := strconv.ParseFloat(string(val.Val), 64) // TODO: handle error
 		ret.floatVal = floatVal
-	case ValueTypeBit:
-		if string(val.Val) == "1" {
-			ret.bitVal = true
-		} else {
-			ret.bitVal = false
-		}
 	}
 
 	return &ret
-- 
2.43.0


From 9bce2e437a701c811326abbecb5223ff194b20e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 50/84] fix: keep the backslashes of a string

They escape in MySQL only, where a default was written without escaping them
again. Other databases take them as they are.
---
 schema/generator.go | 14 +++++++++-----
 schema/parser.go    |  2 +-
 sqlparser/token.go  | 10 +++++++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index fcc1852..e96abdb 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -373,7 +373,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				// default
 				if desiredColumn.defaultDef != nil && !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
 					// set
-					definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+					definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 					if err != nil {
 						return ddls, err
 					}
@@ -441,7 +441,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -872,7 +872,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1765,10 +1765,14 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", strings.Replace(defaultVal.strVal, "'", "''", -1)), nil
+		value := strings.Replace(defaultVal.strVal, "'", "''", -1)
+		if g.mode == GeneratorModeMysql {
+			value = strings.Replace(value, `\`, `\\`, -1)
+		}
+		return fmt.Sprintf("DEFAULT '%s'", value), nil
 	case ValueTypeInt:
 		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
 	case ValueTypeFloat:
diff --git a/schema/parser.go b/schema/parser.go
index d20935e..6a6abbd 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -466,7 +466,7 @@ func splitDDLs(mode GeneratorMode, str string) []string {
 			ddl = ""
 			start = i + 1
 		case c == '\'' || c == '"' || c == '`':
-			length = quotedLength(rest, c, c != '`')
+			length = quotedLength(rest, c, c != '`' && mode == GeneratorModeMysql)
 		case c == '[' && mode == GeneratorModeMssql:
 			length = quotedLength(rest, ']', false)
 		case c == '#' && mode == GeneratorModeMysql || c == '-' && strings.HasPrefix(rest, "-"):
diff --git a/sqlparser/token.go b/sqlparser/token.go
index e56a93e..3299a22 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -854,6 +854,10 @@ exit:
 
 func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 	var buffer bytes2.Buffer
+	escape := uint16('\\') // which only MySQL has
+	if tkn.mode != ParserModeMysql {
+		escape = delim
+	}
 	for {
 		ch := tkn.lastChar
 		if ch == eofChar {
@@ -861,14 +865,14 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 			return LEX_ERROR, buffer.Bytes()
 		}
 
-		if ch != delim && ch != '\\' {
+		if ch != delim && ch != escape {
 			buffer.WriteByte(byte(ch))
 
 			// Scan ahead to the next interesting character.
 			start := tkn.bufPos
 			for ; tkn.bufPos < tkn.bufSize; tkn.bufPos++ {
 				ch = uint16(tkn.buf[tkn.bufPos])
-				if ch == delim || ch == '\\' {
+				if ch == delim || ch == escape {
 					break
 				}
 			}
@@ -888,7 +892,7 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 		}
 		tkn.next() // Read one past the delim or escape character.
 
-		if ch == '\\' {
+		if ch == escape && ch != delim {
 			if tkn.lastChar == eofChar {
 				// String terminates mid escape character.
 				return LEX_ERROR, buffer.Bytes()
-- 
2.43.0


From cb844bfa72d02bcd0157805c03650afb66651aef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 51/84] fix: write the values of a set

A column of that type could not be added to a table, as its values were left out.
---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index e96abdb..884dd8c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -837,7 +837,7 @@ func generateDataType(column Column) string {
 		}
 	} else {
 		switch column.typeName {
-		case "enum":
+		case "enum", "set":
 			return fmt.Sprintf("%s(%s)%s", column.typeName, strings.Join(column.enumValues, ", "), suffix)
 		default:
 			return fmt.Sprintf("%s%s", column.typeName, suffix)
-- 
2.43.0


From e47f735eb8bd3c7bcf6ab565ae176d5775270abb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 52/84] fix: know that smallserial is not null

like serial and bigserial. NOT NULL was dropped with every run.
---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 884dd8c..7122707 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1147,7 +1147,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial"
+			return column.typeName == "smallserial" || column.typeName == "serial" || column.typeName == "bigserial"
 		default:
 			return false
 		}
-- 
2.43.0


From 4397853ef78c6348cc15b53272e4a4c762b4934f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 53/84] fix: write a number default as it is

A small fraction became 0, as only six digits of it were left, and a number
of more than 63 bits the largest one of those.
---
 schema/ast.go       | 5 ++---
 schema/generator.go | 6 ++----
 schema/parser.go    | 3 ---
 3 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/schema/ast.go b/schema/ast.go
index e895d2c..d050ce7 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -150,9 +150,8 @@ type Value struct {
 	raw       []byte
 
 	// ValueType-specific. Should be union?
-	strVal   string  // ValueTypeStr
-	intVal   int     // ValueTypeInt
-	floatVal float64 // ValueTypeFloat
+	strVal string // ValueTypeStr
+	intVal int    // ValueTypeInt
 }
 
 type ValueType int
diff --git a/schema/generator.go b/schema/generator.go
index 7122707..ab886ca 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1773,10 +1773,8 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 			value = strings.Replace(value, `\`, `\\`, -1)
 		}
 		return fmt.Sprintf("DEFAULT '%s'", value), nil
-	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
-	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+	case ValueTypeInt, ValueTypeFloat:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
 		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeBool:
diff --git a/schema/parser.go b/schema/parser.go
index 6a6abbd..89b983b 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -61,9 +61,6 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	case ValueTypeInt:
 		intVal, _ := strconv.Atoi(string(val.Val)) // TODO: handle error
 		ret.intVal = intVal
-	case ValueTypeFloat:
-		floatVal, _ := strconv.ParseFloat(string(val.Val), 64) // TODO: handle error
-		ret.floatVal = floatVal
 	}
 
 	return &ret
-- 
2.43.0


From 3eebe3f2aff8acdb99dc8813bc49e03982f49db1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 54/84] fix: write the default getdate() with its parentheses

SQL Server refused a column added with the default getdate.
---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 909f4b5..41a0fef 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4437,7 +4437,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1173
 		{
-			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
+			yyVAL.optVal = NewValArgWithOpt([]byte("getdate()"), nil)
 		}
 	case 173:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 4783b92..385575c 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1171,7 +1171,7 @@ current_timestamp:
   }
 | GETDATE '(' ')'
   {
-    $$ = NewValArgWithOpt($1, nil)
+    $$ = NewValArgWithOpt([]byte("getdate()"), nil)
   }
 
 no_inherit_opt:
-- 
2.43.0


From 0bc5aeb22d9275fe97b026d32748d19a5a979d83 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 55/84] fix: escape the values of an enum or a set

A value with a quote or a backslash in it was written as it is, and MySQL
refused the statement.
---
 sqlparser/parser.go | 4 ++--
 sqlparser/parser.y  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 41a0fef..92a325a 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4841,13 +4841,13 @@ yydefault:
 //line sqlparser/parser.y:1467
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
+			yyVAL.strs = append(yyVAL.strs, String(NewStrVal(yyDollar[1].bytes)))
 		}
 	case 240:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1472
 		{
-			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
+			yyVAL.strs = append(yyDollar[1].strs, String(NewStrVal(yyDollar[3].bytes)))
 		}
 	case 241:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 385575c..2fa5970 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1466,11 +1466,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, "'" + string($1) + "'")
+    $$ = append($$, String(NewStrVal($1)))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, "'" + string($3) + "'")
+    $$ = append($1, String(NewStrVal($3)))
   }
 
 length_opt:
-- 
2.43.0


From e60c268454e5ef612cc900c42fe1d34b6d6dcb7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 56/84] fix: keep a numeric's and a time's precision in a
 Postgres dump

numeric(10,2) was exported as numeric, timestamp(3) as timestamp.
---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 939f08c..8ada0ec 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -212,7 +212,7 @@ func (c *column) GetDataType() string {
 
 func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
-	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
+	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED', 'numeric') OR s.data_type LIKE 'time%' THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
 	CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey,
 	CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check,
 	s.identity_generation
-- 
2.43.0


From 8ea6aa1a477cf238f428ee761bb242f3630a0b66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 57/84] fix: read MySQL's year(4)

That's how SHOW CREATE TABLE writes a year column, and sqldef refused it.
---
 sqlparser/parser.go | 2427 ++++++++++++++++++++++---------------------
 sqlparser/parser.y  |    4 +-
 2 files changed, 1217 insertions(+), 1214 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 92a325a..e471460 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -764,388 +764,453 @@ var yyExca = [...]int{
 	-1, 797,
 	109, 750,
 	-2, 746,
-	-1, 1039,
+	-1, 1040,
 	5, 28,
 	-2, 549,
-	-1, 1064,
+	-1, 1065,
 	5, 27,
 	-2, 688,
-	-1, 1165,
+	-1, 1166,
 	5, 27,
 	-2, 64,
-	-1, 1382,
+	-1, 1383,
 	5, 28,
 	-2, 689,
-	-1, 1463,
+	-1, 1464,
 	5, 27,
 	-2, 691,
-	-1, 1587,
+	-1, 1588,
 	5, 28,
 	-2, 692,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14791
+const yyLast = 14825
 
 var yyAct = [...]int{
-	273, 1539, 1512, 1476, 1473, 1577, 1067, 729, 1516, 974,
-	579, 277, 498, 1252, 898, 1098, 937, 302, 1101, 1388,
-	1594, 1280, 607, 879, 773, 1253, 903, 861, 1401, 464,
-	335, 1167, 952, 608, 251, 89, 674, 270, 89, 578,
-	3, 1249, 276, 1123, 1279, 646, 969, 909, 1129, 982,
-	923, 245, 902, 833, 53, 862, 822, 1225, 1083, 1031,
-	348, 66, 89, 89, 353, 86, 735, 830, 964, 353,
-	1156, 1153, 353, 353, 918, 1072, 345, 849, 89, 799,
-	89, 644, 662, 511, 517, 661, 89, 250, 858, 648,
-	462, 633, 342, 338, 275, 246, 247, 248, 249, 523,
-	602, 260, 339, 531, 337, 939, 1013, 1137, 477, 593,
-	478, 936, 52, 264, 1658, 1305, 485, 545, 329, 1373,
-	555, 555, 330, 1619, 465, 466, 1414, 279, 1407, 548,
-	549, 550, 551, 552, 545, 1293, 539, 555, 542, 1121,
-	1292, 1692, 1635, 328, 557, 558, 559, 560, 561, 562,
-	563, 1688, 540, 541, 538, 544, 543, 553, 554, 546,
-	547, 548, 549, 550, 551, 552, 545, 1585, 1543, 555,
-	1532, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 938, 496, 555, 1544, 1644, 1651, 333,
-	1679, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1372, 510, 555, 1157, 1158, 975, 1623,
-	1634, 1584, 1244, 832, 1608, 1376, 475, 301, 1275, 1276,
-	1091, 1274, 1609, 1090, 89, 663, 1092, 664, 353, 353,
-	353, 353, 892, 353, 506, 48, 26, 27, 893, 894,
+	273, 1540, 1513, 1477, 1474, 1578, 1068, 729, 302, 975,
+	579, 861, 1280, 1517, 1253, 498, 937, 464, 773, 1389,
+	1102, 1595, 879, 1281, 1254, 903, 276, 1168, 898, 646,
+	674, 1402, 970, 607, 1124, 89, 608, 270, 89, 1099,
+	578, 3, 1130, 1250, 644, 909, 251, 983, 245, 923,
+	902, 862, 277, 833, 1226, 830, 53, 348, 1084, 822,
+	1032, 66, 89, 89, 353, 735, 965, 1157, 1154, 353,
+	662, 952, 353, 353, 1073, 849, 799, 918, 89, 345,
+	89, 511, 517, 462, 661, 858, 89, 342, 250, 648,
+	330, 633, 246, 247, 248, 249, 329, 602, 523, 260,
+	339, 275, 337, 531, 593, 1138, 328, 936, 1014, 939,
+	52, 1659, 1306, 264, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 555, 1620, 555, 539,
+	335, 542, 465, 466, 1652, 1408, 279, 557, 558, 559,
+	560, 561, 562, 563, 1294, 540, 541, 538, 544, 543,
+	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
+	1415, 1122, 555, 1033, 545, 86, 1293, 555, 1689, 936,
+	1693, 1636, 1586, 496, 1533, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 938, 1544, 555,
+	832, 925, 1545, 338, 1158, 1159, 1680, 1645, 333, 976,
+	1624, 1635, 1585, 1373, 510, 932, 1245, 921, 477, 1609,
+	478, 1377, 475, 922, 1276, 1277, 485, 301, 548, 549,
+	550, 551, 552, 545, 89, 663, 555, 664, 353, 353,
+	353, 353, 1275, 353, 48, 26, 27, 892, 1137, 506,
 	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1139, 487, 555, 764, 1429, 1428, 1369,
-	510, 941, 953, 765, 1452, 491, 943, 353, 544, 543,
+	551, 552, 545, 893, 894, 555, 1430, 1429, 1140, 941,
+	1370, 510, 84, 80, 81, 82, 928, 353, 924, 933,
+	1134, 1092, 1136, 1135, 1091, 930, 929, 1093, 1453, 953,
+	764, 347, 853, 1366, 1326, 491, 468, 765, 1325, 472,
+	473, 1364, 1651, 943, 1653, 966, 244, 520, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	853, 347, 555, 1325, 1324, 1365, 468, 1363, 244, 472,
-	473, 84, 80, 81, 82, 1572, 520, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 519,
-	1514, 555, 1613, 465, 466, 965, 1492, 1032, 570, 571,
-	572, 573, 574, 575, 576, 1615, 556, 556, 89, 493,
-	1687, 495, 1404, 736, 1136, 89, 89, 89, 737, 738,
-	1562, 353, 1677, 556, 1610, 1578, 1650, 353, 1652, 1303,
-	1335, 1336, 1203, 345, 1125, 1126, 1127, 859, 628, 492,
-	494, 1579, 1130, 1128, 299, 300, 1133, 652, 1135, 1134,
-	1460, 1533, 57, 502, 503, 556, 543, 553, 554, 546,
-	547, 548, 549, 550, 551, 552, 545, 1409, 1340, 555,
-	919, 556, 1408, 1115, 1114, 1295, 1103, 59, 60, 61,
-	62, 63, 566, 1341, 1286, 920, 1666, 1349, 1437, 1544,
-	1523, 556, 1287, 499, 500, 501, 480, 504, 470, 953,
-	1643, 1120, 946, 78, 508, 595, 596, 597, 598, 599,
-	600, 601, 546, 547, 548, 549, 550, 551, 552, 545,
-	743, 653, 555, 659, 83, 347, 347, 347, 347, 467,
-	347, 75, 1200, 1583, 737, 738, 966, 347, 1402, 1403,
-	1405, 556, 333, 1108, 1106, 880, 882, 1082, 89, 1611,
-	1612, 1614, 1616, 1617, 77, 89, 78, 89, 353, 1081,
-	89, 490, 1080, 89, 533, 727, 680, 89, 556, 353,
-	353, 353, 353, 353, 353, 353, 353, 676, 728, 70,
-	73, 476, 223, 353, 353, 739, 49, 740, 89, 79,
-	744, 1204, 1683, 747, 71, 74, 1537, 556, 1008, 768,
-	568, 569, 1385, 353, 1212, 1047, 528, 89, 919, 919,
-	1025, 72, 68, 353, 1132, 1136, 771, 535, 766, 530,
-	881, 486, 530, 920, 920, 900, 899, 752, 796, 1319,
-	1201, 1555, 1199, 1044, 776, 1554, 800, 785, 347, 529,
-	528, 1208, 1553, 1552, 667, 1202, 1248, 1133, 510, 1135,
-	1134, 1551, 1550, 1549, 1246, 798, 530, 353, 807, 808,
+	1515, 519, 555, 736, 1573, 1336, 1337, 1493, 570, 571,
+	572, 573, 574, 575, 576, 737, 738, 1563, 89, 75,
+	502, 503, 556, 1688, 556, 89, 89, 89, 1405, 465,
+	466, 353, 1678, 1579, 1204, 859, 1580, 353, 1461, 493,
+	1410, 495, 1610, 1409, 487, 1116, 345, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 556, 1341,
+	555, 57, 1201, 556, 1115, 1534, 1287, 70, 73, 492,
+	494, 1104, 926, 1667, 1342, 1350, 919, 1524, 927, 1109,
+	78, 1296, 71, 74, 1288, 556, 59, 60, 61, 62,
+	63, 920, 499, 500, 501, 480, 504, 470, 1107, 72,
+	68, 566, 77, 508, 78, 83, 1438, 743, 467, 1083,
+	595, 596, 597, 598, 599, 600, 601, 880, 882, 1545,
+	1644, 1082, 556, 953, 737, 738, 967, 1081, 934, 653,
+	935, 659, 1614, 1121, 1584, 347, 347, 347, 347, 946,
+	347, 727, 476, 931, 919, 1616, 223, 347, 628, 79,
+	1205, 556, 568, 569, 1403, 1404, 1406, 652, 89, 920,
+	1202, 333, 1200, 919, 1611, 89, 1684, 89, 353, 1538,
+	89, 1386, 1213, 89, 533, 1203, 1048, 89, 920, 353,
+	353, 353, 353, 353, 353, 353, 353, 680, 1026, 771,
+	676, 490, 881, 353, 353, 49, 535, 486, 89, 1320,
+	546, 547, 548, 549, 550, 551, 552, 545, 556, 768,
+	555, 900, 899, 353, 530, 1009, 1556, 89, 1555, 1044,
+	69, 1043, 479, 353, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 752, 1554, 555, 800, 529, 528,
+	1553, 796, 1552, 806, 529, 528, 529, 528, 347, 1247,
+	1321, 1249, 774, 775, 667, 530, 776, 804, 805, 803,
+	1551, 530, 1209, 530, 1550, 798, 556, 353, 807, 808,
 	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 750, 850, 556, 797, 1009, 842, 845,
-	1320, 529, 528, 1547, 851, 544, 543, 553, 554, 546,
-	547, 548, 549, 550, 551, 552, 545, 1332, 530, 555,
-	479, 837, 1070, 778, 806, 1043, 665, 1042, 89, 1494,
-	521, 89, 89, 89, 89, 89, 793, 1207, 804, 805,
-	803, 863, 795, 89, 529, 528, 89, 850, 556, 1054,
-	89, 1100, 69, 774, 775, 89, 89, 825, 860, 353,
-	1100, 530, 742, 827, 828, 510, 801, 732, 1490, 1491,
-	1099, 345, 353, 753, 754, 755, 756, 757, 758, 759,
-	760, 529, 528, 1669, 904, 837, 888, 761, 762, 847,
-	1100, 855, 1100, 525, 1668, 347, 509, 1649, 530, 529,
-	528, 529, 528, 482, 483, 484, 347, 347, 347, 347,
-	347, 347, 347, 347, 76, 469, 530, 1111, 530, 1595,
-	347, 347, 1648, 1647, 954, 955, 956, 957, 353, 1022,
-	1023, 1024, 353, 876, 353, 89, 887, 89, 1596, 884,
-	780, 885, 89, 1597, 89, 1645, 890, 89, 353, 864,
-	533, 889, 867, 347, 865, 866, 50, 868, 333, 333,
-	333, 333, 333, 907, 1110, 981, 802, 986, 1593, 1502,
-	1431, 971, 1003, 333, 1004, 327, 1548, 1005, 1430, 789,
-	791, 792, 333, 1301, 796, 790, 471, 1646, 1422, 474,
-	967, 968, 1140, 1477, 829, 1421, 838, 839, 770, 1140,
-	1459, 823, 846, 824, 843, 843, 1479, 1162, 1160, 1140,
-	843, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 800, 1426, 555, 1351, 556, 1154, 1117, 1545, 21,
-	1570, 1696, 797, 769, 1467, 1685, 854, 1290, 856, 857,
-	1398, 1678, 1028, 1029, 1030, 1398, 1657, 843, 1398, 1656,
-	529, 528, 1398, 1642, 1570, 1641, 997, 1014, 1289, 1288,
-	1015, 1109, 1125, 1126, 1127, 1638, 1637, 530, 1093, 996,
-	1130, 1128, 299, 300, 1478, 977, 347, 1630, 510, 1398,
-	1627, 1467, 1575, 1027, 353, 255, 826, 89, 749, 347,
-	1398, 1566, 1085, 748, 1087, 733, 1001, 731, 1064, 1467,
-	1500, 1467, 510, 353, 656, 995, 1480, 1481, 1482, 1483,
-	1484, 1485, 1486, 488, 353, 904, 978, 481, 980, 1467,
-	1468, 1398, 1397, 1271, 510, 353, 1053, 1384, 510, 1095,
-	463, 801, 1006, 510, 89, 1328, 1327, 1322, 1323, 1322,
-	1321, 1037, 510, 1077, 657, 972, 655, 1116, 1571, 347,
-	1570, 347, 630, 510, 992, 989, 990, 1565, 988, 835,
-	510, 672, 671, 1564, 1508, 347, 1507, 1147, 1086, 1149,
-	1150, 1151, 1152, 1503, 1088, 1423, 353, 1141, 1142, 1131,
-	1144, 1145, 1146, 1416, 1312, 1068, 999, 1002, 1168, 347,
-	1104, 1105, 1107, 1250, 835, 1069, 1068, 1021, 1477, 54,
-	1069, 886, 1215, 655, 1380, 630, 353, 1049, 23, 89,
-	89, 1479, 1415, 1165, 333, 50, 1046, 89, 292, 291,
-	294, 295, 296, 297, 629, 1331, 353, 293, 298, 556,
-	23, 1155, 1159, 1475, 1462, 1161, 630, 1037, 1217, 1173,
-	1326, 1068, 1132, 1136, 1037, 1036, 23, 1213, 630, 1048,
-	1174, 994, 1094, 1172, 50, 784, 891, 942, 1045, 1180,
-	1241, 1051, 1433, 1432, 257, 1037, 353, 353, 658, 1062,
-	1221, 1222, 1063, 772, 863, 1133, 50, 1135, 1134, 1478,
-	863, 1254, 993, 1239, 1240, 1689, 1242, 1243, 1219, 1655,
-	1251, 1224, 50, 1273, 1218, 353, 1632, 353, 353, 1568,
-	1237, 1084, 1238, 1567, 1559, 1256, 1245, 904, 797, 904,
-	50, 1480, 1481, 1482, 1483, 1484, 1485, 1486, 1558, 1520,
-	347, 998, 1260, 1278, 1261, 1259, 1501, 1446, 943, 1181,
-	1177, 1102, 970, 1182, 1179, 1178, 1311, 1000, 74, 1291,
-	1272, 1310, 1112, 1308, 1298, 1265, 965, 1277, 1122, 1183,
-	1163, 1164, 1079, 1097, 959, 1176, 1313, 1314, 958, 1316,
-	1317, 1318, 1296, 1294, 89, 353, 65, 1131, 1302, 1073,
-	1074, 730, 89, 1540, 1434, 1250, 1315, 353, 635, 638,
-	639, 640, 636, 1171, 637, 641, 353, 1076, 1073, 1074,
-	1205, 746, 734, 347, 1329, 507, 873, 875, 89, 639,
-	640, 874, 1337, 1078, 353, 635, 638, 639, 640, 636,
-	871, 637, 641, 353, 870, 872, 89, 777, 869, 261,
-	262, 1353, 1338, 347, 1663, 1217, 1633, 1342, 1346, 1211,
-	1010, 524, 1661, 1020, 1019, 1148, 1344, 512, 1542, 1300,
-	1124, 670, 489, 347, 522, 1125, 1126, 1127, 513, 1378,
-	1347, 1447, 1350, 1130, 1128, 299, 300, 979, 1356, 774,
-	775, 745, 1444, 1299, 1170, 347, 353, 973, 353, 353,
-	353, 89, 353, 643, 524, 834, 836, 1361, 353, 1443,
-	843, 258, 259, 1258, 1084, 1334, 843, 1391, 1392, 1393,
-	904, 852, 1370, 1379, 1018, 1387, 1285, 1354, 252, 353,
-	1653, 1526, 1017, 253, 1095, 54, 1439, 1396, 1440, 1441,
-	1442, 1411, 347, 1406, 347, 1281, 1394, 1525, 1413, 1450,
-	1438, 1069, 1410, 983, 984, 985, 1284, 1283, 680, 526,
-	1424, 1556, 353, 353, 1557, 266, 1534, 1113, 767, 676,
-	353, 878, 1419, 333, 1168, 904, 1131, 1417, 56, 58,
-	353, 1518, 7, 1175, 1425, 1339, 1427, 1519, 6, 1436,
-	1517, 5, 654, 1435, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 463, 51, 555, 1,
-	1515, 1563, 1330, 1119, 1561, 353, 353, 67, 1622, 1569,
-	1304, 1333, 1451, 1169, 1343, 1184, 976, 1166, 1254, 353,
-	991, 303, 47, 1345, 1576, 1590, 1461, 1453, 1454, 353,
-	1455, 1456, 1457, 1474, 911, 901, 461, 1489, 1472, 64,
-	1487, 1348, 1493, 1463, 1488, 1132, 1136, 1495, 1546, 912,
-	347, 910, 908, 353, 353, 89, 1504, 673, 353, 1497,
-	1505, 919, 1506, 1138, 940, 679, 914, 353, 913, 47,
-	915, 916, 677, 678, 675, 917, 920, 256, 1133, 681,
-	1135, 1134, 231, 334, 340, 1511, 1521, 642, 353, 666,
-	527, 1198, 1197, 987, 1206, 763, 1535, 1509, 1541, 1007,
-	1254, 505, 233, 1389, 564, 1389, 1389, 1389, 1016, 1395,
-	1089, 346, 1618, 1257, 516, 347, 1524, 1449, 1052, 590,
-	848, 278, 788, 290, 1536, 287, 289, 288, 779, 1061,
-	537, 268, 332, 626, 634, 632, 1389, 631, 1075, 1071,
-	331, 353, 1214, 1034, 1573, 1375, 1531, 1035, 783, 25,
-	55, 263, 19, 18, 1039, 1040, 1041, 1581, 353, 17,
-	20, 353, 16, 1050, 15, 353, 863, 1591, 1056, 347,
-	347, 1057, 1058, 1059, 1060, 14, 29, 1445, 13, 353,
-	353, 1605, 1586, 12, 11, 1574, 10, 1448, 353, 353,
-	9, 353, 1598, 1599, 1600, 1601, 1602, 8, 4, 353,
-	254, 1626, 22, 1628, 556, 1603, 1604, 2, 514, 518,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 1465, 1466, 1606, 536, 0, 0, 0, 0,
-	0, 0, 1620, 1621, 0, 0, 1281, 0, 0, 1639,
-	1640, 0, 0, 0, 0, 1654, 1496, 0, 0, 497,
-	497, 497, 497, 353, 497, 0, 1660, 353, 1659, 580,
-	0, 497, 1665, 0, 0, 0, 0, 1667, 591, 0,
-	1281, 1510, 0, 0, 89, 1513, 353, 0, 47, 1672,
-	0, 0, 1675, 1674, 1389, 0, 0, 89, 0, 1682,
-	0, 0, 0, 565, 1684, 1673, 567, 1662, 0, 1686,
-	0, 0, 0, 0, 353, 1538, 0, 0, 0, 0,
-	353, 0, 1693, 0, 0, 0, 1690, 1681, 0, 0,
-	0, 0, 0, 577, 0, 581, 582, 583, 584, 585,
-	586, 587, 588, 589, 0, 592, 594, 594, 594, 594,
-	594, 594, 594, 594, 0, 622, 623, 624, 625, 1694,
-	0, 0, 0, 1223, 0, 0, 645, 0, 1281, 0,
+	819, 820, 821, 797, 850, 750, 528, 1548, 728, 1612,
+	1613, 1615, 1617, 1618, 1010, 739, 1333, 740, 529, 528,
+	744, 1071, 530, 747, 665, 482, 483, 484, 850, 469,
+	1055, 778, 837, 1101, 732, 530, 1112, 1495, 89, 521,
+	1491, 89, 89, 89, 89, 89, 793, 1492, 766, 842,
+	845, 1596, 525, 89, 795, 851, 89, 1670, 1208, 1101,
+	89, 742, 1101, 76, 825, 89, 89, 785, 1100, 353,
+	1597, 1646, 753, 754, 755, 756, 757, 758, 759, 760,
+	827, 828, 353, 1111, 345, 801, 761, 762, 1669, 855,
+	1101, 50, 863, 789, 791, 792, 837, 904, 847, 790,
+	471, 802, 1423, 474, 1422, 347, 1141, 509, 1141, 887,
+	1023, 1024, 1025, 1647, 1478, 1650, 347, 347, 347, 347,
+	347, 347, 347, 347, 327, 1649, 1648, 1480, 1478, 1598,
+	347, 347, 865, 866, 770, 868, 556, 864, 353, 1594,
+	867, 1480, 353, 876, 353, 89, 1503, 89, 885, 884,
+	780, 1432, 89, 1431, 89, 890, 889, 89, 353, 1302,
+	533, 1163, 556, 347, 1161, 1141, 907, 972, 860, 769,
+	1045, 1549, 1460, 954, 955, 956, 957, 333, 333, 333,
+	333, 333, 1427, 838, 839, 1352, 529, 528, 823, 846,
+	824, 510, 333, 1155, 21, 1479, 888, 796, 968, 969,
+	1118, 333, 1546, 530, 829, 1571, 1697, 529, 528, 1479,
+	1468, 1686, 1399, 1679, 843, 843, 1399, 1658, 529, 528,
+	843, 1291, 800, 854, 530, 856, 857, 1481, 1482, 1483,
+	1484, 1485, 1486, 1487, 1290, 530, 1399, 1657, 510, 797,
+	1289, 1481, 1482, 1483, 1484, 1485, 1486, 1487, 1399, 1643,
+	255, 1110, 1029, 1030, 1031, 1571, 1642, 843, 1639, 1638,
+	1631, 510, 1399, 1628, 1566, 1015, 1094, 978, 1016, 292,
+	291, 294, 295, 296, 297, 982, 826, 987, 293, 298,
+	1468, 1576, 1004, 749, 1005, 748, 347, 1006, 1399, 1567,
+	1028, 1468, 1501, 1565, 353, 1468, 510, 89, 733, 347,
+	1468, 1469, 1086, 731, 1088, 1399, 1398, 1272, 510, 1065,
+	1385, 510, 1509, 353, 488, 979, 481, 981, 463, 635,
+	638, 639, 640, 636, 353, 637, 641, 1508, 904, 1074,
+	1075, 1007, 1504, 1069, 1054, 353, 463, 23, 1096, 1329,
+	1328, 1087, 1323, 1324, 89, 1323, 1322, 1038, 510, 1572,
+	801, 1571, 1078, 1424, 1476, 973, 630, 510, 656, 347,
+	1063, 347, 1417, 1064, 835, 510, 672, 671, 1543, 1313,
+	1216, 1251, 1089, 1132, 1069, 347, 835, 1070, 1070, 1381,
+	1050, 1117, 1047, 50, 1022, 54, 630, 353, 23, 629,
+	886, 1148, 655, 1150, 1151, 1152, 1153, 23, 657, 347,
+	655, 919, 1169, 1105, 1106, 1108, 914, 1416, 913, 1332,
+	915, 916, 1038, 630, 1463, 917, 920, 353, 630, 1069,
+	89, 89, 1049, 1038, 1046, 1166, 1142, 1143, 89, 1145,
+	1146, 1147, 1037, 333, 50, 1434, 1433, 353, 1156, 1160,
+	1327, 1095, 891, 50, 1162, 257, 1038, 1174, 1052, 1126,
+	1127, 1128, 1218, 658, 772, 50, 1690, 1131, 1129, 299,
+	300, 1175, 1656, 1173, 635, 638, 639, 640, 636, 1181,
+	637, 641, 1633, 1569, 1242, 1568, 730, 353, 353, 1560,
+	1559, 1222, 1223, 1255, 1521, 1252, 1502, 1447, 943, 971,
+	1312, 50, 1311, 1219, 1240, 1241, 1309, 1243, 1244, 1299,
+	1220, 1266, 1225, 966, 1274, 1123, 353, 1098, 353, 353,
+	1239, 1085, 1164, 1165, 1238, 959, 797, 1257, 958, 1246,
+	65, 904, 1541, 904, 1074, 1075, 863, 1435, 1251, 1172,
+	347, 1262, 863, 1279, 1077, 1261, 1260, 746, 1292, 1182,
+	1178, 1103, 734, 1183, 1180, 1179, 507, 942, 74, 873,
+	871, 1080, 1113, 1273, 874, 872, 1278, 784, 1214, 1184,
+	1079, 875, 1132, 639, 640, 1177, 870, 1297, 869, 1664,
+	1303, 261, 262, 1295, 1634, 89, 353, 1191, 1212, 1011,
+	524, 1314, 1315, 89, 1317, 1318, 1319, 1662, 353, 1021,
+	1206, 512, 1020, 522, 1149, 670, 489, 353, 1301, 980,
+	1379, 1448, 513, 745, 347, 524, 1304, 774, 775, 89,
+	1445, 1126, 1127, 1128, 1300, 353, 1171, 974, 643, 1131,
+	1129, 299, 300, 1444, 353, 1019, 1316, 89, 777, 1133,
+	1137, 1339, 1354, 1018, 347, 1343, 258, 259, 1335, 1218,
+	1286, 252, 1192, 1654, 1345, 1527, 253, 1194, 1187, 1188,
+	54, 1195, 1190, 1189, 347, 1526, 1197, 1193, 1348, 1451,
+	1070, 1351, 1134, 526, 1136, 1135, 1558, 1196, 1557, 1357,
+	1535, 1355, 1114, 1186, 1362, 767, 347, 353, 56, 353,
+	353, 353, 89, 353, 1285, 1284, 834, 836, 58, 353,
+	1176, 843, 1519, 7, 1259, 1085, 1340, 843, 1392, 1393,
+	1394, 654, 852, 51, 904, 1330, 1380, 984, 985, 986,
+	353, 1395, 1, 1338, 1096, 1520, 6, 1516, 1388, 1518,
+	5, 1411, 1564, 347, 1120, 347, 1282, 1407, 1562, 1414,
+	1397, 1440, 67, 1441, 1442, 1443, 510, 1623, 1570, 1347,
+	1305, 1132, 1334, 353, 353, 1439, 1412, 1420, 1170, 1418,
+	680, 353, 878, 676, 1185, 1425, 977, 1167, 1169, 904,
+	992, 353, 1577, 333, 1591, 1475, 1227, 911, 901, 1437,
+	1436, 461, 64, 544, 543, 553, 554, 546, 547, 548,
+	549, 550, 551, 552, 545, 1547, 912, 555, 910, 908,
+	673, 1133, 1137, 1331, 1139, 940, 353, 353, 679, 1229,
+	1255, 677, 678, 675, 1426, 1344, 1428, 681, 231, 340,
+	353, 642, 303, 47, 1346, 666, 1462, 527, 1454, 1455,
+	353, 1456, 1457, 1458, 1134, 1199, 1136, 1135, 1473, 1489,
+	1198, 988, 1349, 1488, 1207, 1464, 763, 1008, 1498, 505,
+	1496, 347, 1452, 233, 353, 353, 89, 1505, 564, 353,
+	1017, 1090, 1490, 346, 1619, 1231, 1510, 1494, 353, 1236,
+	47, 1230, 1258, 516, 1525, 1506, 1228, 1507, 256, 1450,
+	1053, 590, 1234, 848, 334, 278, 788, 1522, 290, 353,
+	287, 289, 1255, 288, 779, 1232, 1233, 1062, 1536, 1542,
+	537, 268, 332, 626, 1390, 634, 1390, 1390, 1390, 632,
+	1396, 631, 1076, 1235, 1237, 266, 347, 1072, 331, 1215,
+	1376, 1532, 783, 25, 55, 263, 1537, 19, 18, 17,
+	20, 16, 15, 14, 29, 13, 12, 1390, 11, 1374,
+	10, 9, 353, 8, 1035, 4, 254, 22, 1036, 2,
+	1574, 0, 0, 0, 1575, 1040, 1041, 1042, 1582, 353,
+	0, 0, 353, 0, 1051, 0, 353, 1587, 1592, 1057,
+	347, 347, 1058, 1059, 1060, 1061, 0, 0, 1446, 0,
+	353, 353, 1606, 0, 0, 0, 1512, 0, 1449, 353,
+	353, 0, 353, 1607, 1599, 1600, 1601, 1602, 1603, 0,
+	353, 1621, 1622, 556, 1629, 0, 0, 1627, 863, 1604,
+	1605, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 1466, 1467, 555, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1282, 0, 0,
+	0, 0, 0, 0, 0, 0, 1655, 1497, 0, 0,
+	497, 497, 497, 497, 353, 497, 0, 1661, 353, 1660,
+	0, 0, 497, 1666, 1640, 1641, 1663, 0, 1668, 0,
+	0, 1282, 1511, 0, 0, 89, 1514, 353, 0, 47,
+	1673, 0, 0, 1676, 1675, 1390, 0, 0, 89, 0,
+	1683, 0, 0, 0, 565, 1685, 1674, 567, 0, 0,
+	1687, 0, 0, 1125, 0, 353, 1539, 0, 1126, 1127,
+	1128, 353, 0, 1694, 0, 0, 1131, 1129, 299, 300,
+	1691, 0, 0, 0, 577, 0, 581, 582, 583, 584,
+	585, 586, 587, 588, 589, 0, 592, 594, 594, 594,
+	594, 594, 594, 594, 594, 0, 622, 623, 624, 625,
+	1695, 0, 0, 0, 0, 1224, 0, 645, 0, 1282,
+	0, 0, 0, 0, 0, 0, 0, 0, 514, 518,
+	0, 0, 0, 843, 0, 0, 1589, 0, 0, 1590,
+	0, 0, 0, 1593, 0, 536, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1514, 1282, 0,
+	0, 0, 1271, 0, 0, 0, 1282, 1282, 0, 1625,
+	0, 0, 0, 0, 0, 0, 0, 1632, 1682, 580,
+	0, 0, 0, 515, 0, 0, 0, 0, 591, 0,
+	0, 556, 0, 0, 0, 0, 0, 0, 0, 0,
 	944, 945, 947, 948, 949, 0, 950, 951, 0, 0,
-	0, 0, 843, 0, 0, 1588, 0, 0, 1589, 0,
-	0, 0, 1592, 960, 961, 962, 0, 963, 0, 936,
-	0, 0, 0, 0, 0, 0, 1513, 1281, 0, 0,
-	1270, 0, 0, 0, 0, 1281, 1281, 0, 1624, 0,
-	0, 925, 0, 0, 0, 0, 1631, 1220, 0, 0,
-	0, 0, 0, 0, 0, 932, 0, 921, 0, 0,
-	0, 0, 0, 922, 1033, 0, 0, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 0,
-	0, 555, 0, 0, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 515, 0, 555, 0,
-	1281, 0, 0, 0, 1664, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 786, 787, 928, 0, 924, 933,
-	0, 0, 0, 1389, 0, 930, 929, 0, 0, 497,
-	0, 87, 0, 0, 243, 0, 0, 0, 0, 0,
-	497, 497, 497, 497, 497, 497, 497, 497, 0, 0,
-	0, 347, 0, 0, 497, 497, 267, 1513, 87, 87,
-	0, 0, 0, 0, 0, 1355, 603, 580, 0, 0,
-	840, 841, 1357, 0, 87, 0, 87, 0, 0, 0,
-	0, 0, 87, 0, 1366, 1367, 1368, 0, 0, 1371,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 605,
-	0, 0, 1381, 1382, 1383, 0, 1386, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 47,
-	0, 555, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 926, 581, 0, 0, 0, 0, 927, 0,
-	610, 611, 612, 613, 614, 615, 616, 617, 618, 619,
-	0, 897, 0, 1420, 1143, 0, 23, 24, 48, 26,
-	27, 606, 0, 0, 0, 0, 0, 0, 0, 620,
-	604, 0, 0, 0, 0, 42, 609, 0, 1226, 28,
-	0, 0, 334, 334, 334, 334, 334, 556, 934, 0,
-	935, 0, 0, 0, 0, 0, 0, 645, 37, 883,
-	0, 0, 50, 931, 556, 0, 334, 0, 0, 0,
-	0, 1228, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 1458, 0, 0, 0, 0, 0, 0, 229,
-	0, 0, 0, 0, 0, 0, 0, 0, 1469, 1470,
-	1471, 0, 0, 0, 0, 0, 0, 0, 0, 621,
-	0, 0, 0, 239, 0, 1011, 1012, 0, 518, 1499,
-	0, 0, 30, 31, 33, 32, 35, 1230, 0, 0,
-	0, 1235, 0, 1229, 0, 0, 0, 0, 1227, 0,
-	0, 1190, 0, 497, 1233, 497, 36, 43, 44, 0,
-	0, 45, 46, 34, 0, 0, 0, 1231, 1232, 497,
-	1527, 1528, 1529, 1530, 224, 0, 0, 0, 0, 0,
-	226, 0, 0, 0, 0, 1234, 1236, 232, 228, 0,
-	0, 1038, 0, 0, 87, 38, 39, 556, 40, 41,
-	0, 87, 650, 87, 0, 0, 1055, 0, 0, 0,
-	0, 1307, 1309, 0, 0, 0, 1191, 230, 1026, 0,
-	234, 1193, 1186, 1187, 0, 1194, 1189, 1188, 0, 0,
-	1196, 1192, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1195, 0, 0, 0, 0, 0, 1185, 1582, 0,
-	0, 0, 0, 1587, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1607, 225, 0,
-	1065, 1066, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1629, 0, 0, 0, 0, 0, 49,
-	0, 0, 0, 0, 1358, 1359, 0, 1360, 334, 0,
-	0, 1362, 0, 1364, 0, 0, 227, 0, 235, 236,
-	237, 238, 242, 0, 0, 0, 0, 241, 240, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 87, 0, 87, 0, 0, 87, 0, 0, 87,
-	0, 0, 0, 751, 0, 0, 0, 0, 0, 1399,
-	1400, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 1680, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 47, 0, 0, 0, 0,
-	0, 0, 751, 0, 0, 0, 0, 0, 0, 0,
-	1247, 1697, 1698, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1262, 1263, 497, 0, 1264,
-	0, 0, 1266, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 267, 0, 0, 0, 0, 267,
-	267, 0, 0, 844, 844, 267, 0, 0, 0, 844,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1255, 0, 47, 0, 267,
-	267, 267, 267, 0, 87, 0, 844, 87, 87, 87,
-	87, 87, 1267, 1268, 1269, 0, 0, 0, 0, 877,
-	0, 0, 87, 0, 0, 0, 650, 0, 0, 0,
-	0, 87, 87, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1297, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1306, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1352, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 703, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 87, 0, 87, 1377, 0, 0, 0, 87, 0,
-	87, 580, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 334, 751, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 688, 0, 1412, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1374, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 704, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 267, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 267, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	0, 243, 0, 960, 961, 962, 0, 963, 0, 964,
+	0, 1282, 0, 0, 0, 1665, 0, 0, 0, 0,
+	0, 0, 0, 267, 0, 87, 87, 0, 1133, 1137,
+	0, 0, 0, 0, 1390, 0, 0, 0, 0, 0,
+	497, 87, 0, 87, 0, 0, 0, 0, 0, 87,
+	0, 497, 497, 497, 497, 497, 497, 497, 497, 1371,
+	0, 1134, 347, 1136, 1135, 497, 497, 0, 1514, 0,
+	0, 0, 0, 0, 0, 0, 0, 1356, 0, 0,
+	0, 0, 0, 0, 1358, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1367, 1368, 1369, 0,
+	0, 1372, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1382, 1383, 1384, 0, 1387, 0,
+	0, 0, 0, 0, 0, 0, 1221, 0, 0, 0,
+	47, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 0, 581, 555, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
+	555, 0, 0, 0, 0, 1421, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
+	555, 0, 603, 0, 786, 787, 0, 87, 0, 0,
+	0, 0, 0, 334, 334, 334, 334, 334, 0, 1034,
+	0, 0, 0, 0, 0, 0, 0, 0, 645, 0,
+	883, 0, 0, 0, 0, 605, 0, 334, 0, 544,
+	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 0, 998, 555, 1459, 0, 0, 580, 0, 0,
+	840, 841, 0, 0, 1144, 997, 0, 0, 0, 0,
+	1470, 1471, 1472, 0, 0, 0, 610, 611, 612, 613,
+	614, 615, 616, 617, 618, 619, 229, 0, 0, 0,
+	0, 1500, 1002, 0, 0, 0, 0, 606, 0, 0,
+	0, 996, 0, 0, 0, 620, 604, 0, 0, 0,
+	239, 87, 609, 0, 497, 0, 497, 0, 87, 650,
+	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	497, 0, 1528, 1529, 1530, 1531, 0, 0, 0, 0,
+	0, 897, 0, 0, 0, 0, 0, 0, 0, 0,
+	993, 990, 991, 0, 989, 0, 0, 0, 0, 0,
+	0, 224, 0, 0, 0, 0, 0, 226, 0, 0,
+	0, 556, 0, 0, 232, 228, 0, 0, 0, 1027,
+	0, 0, 1000, 1003, 0, 621, 556, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 230, 0, 556, 234, 0, 0,
+	1583, 0, 0, 0, 0, 1588, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1608,
+	0, 1066, 1067, 0, 0, 1012, 1013, 995, 518, 0,
+	0, 87, 1308, 1310, 0, 1630, 0, 0, 87, 556,
+	87, 0, 0, 87, 0, 225, 87, 0, 0, 334,
+	751, 0, 0, 0, 0, 0, 0, 0, 994, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 227, 0, 235, 236, 237, 238, 242,
+	87, 1039, 0, 0, 241, 240, 0, 999, 0, 751,
+	0, 0, 0, 0, 0, 0, 1056, 0, 0, 0,
+	0, 0, 0, 1001, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1681, 0, 1359, 1360, 0, 1361, 0,
+	0, 0, 1363, 0, 1365, 0, 0, 47, 0, 0,
+	0, 267, 0, 0, 0, 0, 267, 267, 0, 0,
+	844, 844, 267, 1698, 1699, 0, 844, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 497,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1400, 1401, 0, 0, 0, 0, 267, 267, 267, 267,
+	0, 87, 0, 844, 87, 87, 87, 87, 87, 0,
+	0, 0, 0, 0, 0, 0, 877, 0, 0, 87,
+	0, 0, 0, 650, 0, 0, 0, 0, 87, 87,
+	0, 0, 0, 0, 0, 0, 0, 1256, 0, 47,
+	23, 24, 48, 26, 27, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1268, 1269, 1270, 0, 0, 42,
+	0, 0, 0, 28, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 37, 0, 0, 0, 50, 0, 0, 0,
+	1298, 0, 0, 0, 0, 0, 703, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1307, 0, 87, 0,
+	87, 0, 0, 0, 0, 87, 0, 87, 0, 0,
+	87, 1248, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1263, 1264, 0, 0,
+	1265, 0, 0, 1267, 0, 751, 30, 31, 33, 32,
+	35, 0, 0, 0, 0, 0, 0, 267, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	36, 43, 44, 688, 0, 45, 46, 34, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 334,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 267, 704, 0, 0, 38,
+	39, 0, 40, 41, 0, 0, 0, 0, 1375, 0,
+	0, 267, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 610, 611, 612,
+	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
+	87, 722, 723, 724, 726, 725, 705, 706, 707, 711,
+	709, 708, 710, 682, 684, 1353, 620, 683, 689, 685,
+	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
+	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
+	717, 718, 719, 0, 703, 0, 1419, 1119, 0, 0,
+	0, 0, 0, 49, 0, 1378, 0, 0, 0, 0,
+	0, 0, 580, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1256, 0, 621, 1465, 0, 0,
+	0, 0, 0, 0, 1413, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 688, 0, 1210, 1211, 1499, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 267, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 267, 0, 704, 0, 0, 0, 0, 0,
+	0, 1523, 751, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1256, 844, 47, 0,
+	0, 0, 0, 844, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 610, 611, 612, 613, 614,
 	615, 616, 617, 618, 619, 0, 720, 721, 0, 722,
 	723, 724, 726, 725, 705, 706, 707, 711, 709, 708,
-	710, 682, 684, 87, 620, 683, 689, 685, 686, 687,
+	710, 682, 684, 0, 620, 683, 689, 685, 686, 687,
 	701, 690, 691, 692, 693, 694, 695, 696, 697, 698,
 	699, 700, 702, 712, 713, 714, 715, 716, 717, 718,
-	719, 0, 0, 0, 1418, 703, 0, 0, 0, 0,
+	719, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1118, 0, 1255, 0, 0, 1464, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	0, 0, 0, 0, 0, 0, 87, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1637, 621, 1561, 0, 0, 0, 0,
+	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1498, 621, 0, 0, 0, 0, 0,
+	87, 0, 1581, 580, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1560, 0, 0, 0, 0, 0,
-	0, 0, 688, 0, 0, 0, 0, 0, 0, 1522,
-	0, 0, 0, 0, 0, 1209, 1210, 0, 0, 0,
-	0, 1580, 580, 87, 1255, 0, 47, 0, 0, 0,
-	0, 0, 0, 267, 0, 704, 0, 0, 0, 0,
-	0, 0, 0, 0, 267, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 751, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1625, 0, 844,
-	0, 0, 0, 0, 0, 844, 610, 611, 612, 613,
-	614, 615, 616, 617, 618, 619, 0, 720, 721, 0,
-	722, 723, 724, 726, 725, 705, 706, 707, 711, 709,
-	708, 710, 682, 684, 0, 620, 683, 689, 685, 686,
-	687, 701, 690, 691, 692, 693, 694, 695, 696, 697,
-	698, 699, 700, 702, 712, 713, 714, 715, 716, 717,
-	718, 719, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1636, 0, 0, 1676, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 87, 0,
-	0, 0, 0, 0, 0, 621, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1626, 0,
+	0, 0, 0, 0, 0, 650, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
+	0, 1692, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1691,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 650, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1677, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
-	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
-	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
-	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
-	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
-	352, 0, 905, 906, 0, 0, 0, 0, 0, 105,
-	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
-	366, 458, 446, 388, 389, 1096, 0, 0, 0, 0,
-	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
-	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
-	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
-	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
-	161, 87, 108, 0, 182, 120, 396, 131, 432, 450,
-	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 844, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
-	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
-	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
-	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
-	0, 0, 367, 368, 170, 405, 0, 104, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1671, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 449, 439, 87, 408, 451, 381, 397, 459, 399,
+	0, 0, 0, 0, 0, 0, 0, 449, 439, 87,
+	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
+	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
+	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
+	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
+	452, 395, 427, 453, 0, 0, 0, 352, 0, 905,
+	906, 0, 0, 0, 0, 0, 105, 0, 426, 448,
+	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
+	388, 389, 1097, 0, 0, 0, 0, 0, 0, 411,
+	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
+	0, 385, 0, 422, 0, 0, 0, 369, 364, 844,
+	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
+	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
+	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
+	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 1672, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 87, 0, 360, 0, 177, 196, 214, 215, 361,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
+	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
+	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
+	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
+	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
+	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
+	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
+	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
+	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
+	427, 453, 0, 0, 0, 352, 0, 905, 906, 0,
+	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
+	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
+	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
+	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
+	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
+	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
+	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
+	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
+	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
+	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
+	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
+	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
+	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
+	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
+	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
+	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
+	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
+	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
+	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
+	0, 0, 0, 0, 0, 1217, 0, 385, 0, 422,
+	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
+	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
+	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
+	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
+	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
+	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
+	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
+	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
+	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
+	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
+	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
 	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 352, 0, 905, 906, 0, 0, 0, 0, 0,
+	407, 431, 372, 423, 452, 395, 427, 453, 50, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1175,12 +1240,12 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 272,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
 	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 1216, 0, 385, 0, 422, 0, 0, 0, 369,
+	0, 794, 0, 385, 0, 422, 0, 0, 0, 369,
 	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
 	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
 	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
@@ -1206,7 +1271,7 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 50, 0, 0, 352, 0, 0,
+	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
@@ -1241,7 +1306,7 @@ var yyAct = [...]int{
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
 	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 794, 0, 385,
+	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
 	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
 	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
 	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
@@ -1283,12 +1348,12 @@ var yyAct = [...]int{
 	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
 	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
 	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
 	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
 	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
 	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
 	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	208, 209, 0, 0, 0, 351, 349, 124, 173, 128,
 	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
 	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
 	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
@@ -1299,7 +1364,7 @@ var yyAct = [...]int{
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
 	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1342,7 +1407,7 @@ var yyAct = [...]int{
 	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
 	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
 	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	183, 660, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
 	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
@@ -1360,7 +1425,7 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 88, 0, 0,
+	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
@@ -1372,145 +1437,26 @@ var yyAct = [...]int{
 	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 341,
 	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
 	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
 	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	201, 98, 350, 199, 148, 153, 151, 198, 185, 191,
 	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
 	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 351,
+	349, 344, 343, 128, 135, 164, 212, 428, 169, 107,
 	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
 	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
 	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 660, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 341, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 351, 349, 344, 343, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 154,
-	104, 92, 0, 0, 274, 0, 0, 0, 116, 271,
-	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
-	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
-	0, 895, 0, 50, 0, 0, 272, 292, 291, 294,
-	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
-	896, 0, 0, 269, 285, 0, 312, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
-	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
-	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
-	0, 0, 0, 0, 0, 0, 154, 0, 92, 831,
-	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
-	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
-	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
-	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
-	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
-	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
-	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
-	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
-	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
+	368, 170, 405, 154, 104, 92, 0, 0, 274, 0,
+	0, 0, 116, 271, 0, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 510,
+	0, 0, 0, 0, 0, 895, 0, 50, 0, 0,
 	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
+	293, 298, 299, 300, 896, 0, 0, 269, 285, 0,
 	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
@@ -1534,7 +1480,7 @@ var yyAct = [...]int{
 	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
 	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
 	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
+	154, 0, 92, 831, 170, 274, 322, 104, 0, 116,
 	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
 	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
@@ -1561,12 +1507,12 @@ var yyAct = [...]int{
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
 	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
 	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
 	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
 	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
 	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
+	0, 50, 0, 510, 272, 292, 291, 294, 295, 296,
 	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
 	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1599,6 +1545,120 @@ var yyAct = [...]int{
 	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
 	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 282, 283, 265, 0, 0, 0, 325, 0, 284,
+	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
+	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
+	311, 0, 125, 310, 91, 99, 132, 210, 211, 23,
+	163, 118, 197, 0, 0, 0, 0, 0, 0, 0,
+	0, 154, 0, 92, 0, 170, 274, 322, 104, 0,
+	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
+	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
+	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
+	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
+	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
+	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
+	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
+	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
+	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
+	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
+	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
+	0, 0, 50, 0, 0, 272, 292, 291, 294, 295,
+	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
+	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
+	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
+	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
+	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
+	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
+	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
+	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
+	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 170,
+	116, 322, 104, 0, 130, 313, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
+	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
+	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
+	299, 300, 0, 0, 0, 0, 285, 0, 312, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
+	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
+	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 1696, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
+	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
+	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 0, 0, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 170, 116, 322, 104, 0, 130, 313, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
+	105, 293, 298, 299, 300, 0, 0, 0, 0, 285,
+	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
 	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
@@ -1621,18 +1681,18 @@ var yyAct = [...]int{
 	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
 	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
 	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
-	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
-	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
-	0, 0, 285, 0, 312, 0, 0, 0, 0, 0,
+	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
-	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
+	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 0, 0, 555, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
 	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 1695, 156, 166, 134, 186, 162, 193,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
 	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
 	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
 	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
@@ -1644,21 +1704,21 @@ var yyAct = [...]int{
 	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
 	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
 	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
-	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
-	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
 	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 170, 116,
-	322, 104, 0, 130, 313, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
-	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
-	300, 0, 0, 0, 0, 285, 0, 312, 0, 0,
+	154, 0, 92, 0, 532, 0, 0, 0, 170, 116,
+	556, 104, 0, 130, 0, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
-	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
-	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 529, 528, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 530,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
 	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
 	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
@@ -1673,323 +1733,407 @@ var yyAct = [...]int{
 	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
 	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
-	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 170, 116, 322, 104, 0, 130, 0, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
+	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
-	555, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
-	532, 0, 0, 0, 170, 116, 556, 104, 0, 130,
-	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 534, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 529, 528,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 530, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
+	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
+	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	649, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 651, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 23, 163, 118, 197, 0, 0, 0, 0,
+	0, 0, 0, 0, 154, 0, 92, 0, 170, 0,
+	0, 104, 0, 116, 0, 0, 0, 130, 0, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
-	0, 0, 0, 154, 0, 92, 0, 170, 0, 0,
-	104, 0, 116, 0, 0, 0, 130, 0, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
-	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 781, 0, 0, 782, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 23, 163,
-	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 170, 0, 0, 104, 0, 116,
-	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 669, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 668, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
-	781, 0, 0, 782, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 649, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	669, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 668,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 647, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 1391, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 1671, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 1283, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 647, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 352, 0, 534, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 1390, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 741, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 1670, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
+	0, 0, 627, 116, 0, 170, 0, 130, 104, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 1282, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 336, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 0, 170, 0, 0, 104, 116,
+	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -2017,14 +2161,14 @@ var yyAct = [...]int{
 	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
 	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
+	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 85, 0, 203, 0, 0, 0, 161, 0, 108,
 	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
 	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
@@ -2045,7 +2189,7 @@ var yyAct = [...]int{
 	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
 	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
+	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -2094,14 +2238,14 @@ var yyAct = [...]int{
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
 	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
 	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 741, 169, 107,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
 	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 627, 116,
+	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
 	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 272, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -2125,163 +2269,21 @@ var yyAct = [...]int{
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
 	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 336,
-	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
-	0, 170, 0, 0, 104, 116, 0, 0, 0, 130,
-	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 85, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
-	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
-	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 272, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 170, 0, 0,
-	104,
+	0, 170, 0, 0, 104,
 }
 
 var yyPact = [...]int{
-	2000, -1000, -201, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1290, 1343, -1000, -1000, -1000, -1000, -1000, -1000, 1114,
-	381, 353, 390, 173, 13638, 383, 2048, 14198, -1000, 111,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1024, -1000, -1000,
-	-1000, -1000, -1000, 1281, 1287, 1058, 1261, 1181, -1000, 7432,
-	300, 11952, 13358, 6278, -1000, 875, -183, 328, 13918, 294,
-	294, 13918, 13918, 294, -1000, -63, 382, 14198, -1000, 14198,
-	292, 862, 292, 292, 292, 14198, -1000, 432, -1000, -1000,
+	2464, -1000, -203, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1225, 1263, -1000, -1000, -1000, -1000, -1000, -1000, 1058,
+	259, 291, 340, 144, 13672, 337, 2075, 14232, -1000, 119,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 981, -1000, -1000,
+	-1000, -1000, -1000, 1214, 1220, 1029, 1206, 1123, -1000, 7466,
+	267, 11986, 13392, 6312, -1000, 853, -175, 297, 13952, 283,
+	283, 13952, 13952, 283, -1000, -67, 333, 14232, -1000, 14232,
+	281, 851, 281, 281, 281, 14232, -1000, 398, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2294,21 +2296,21 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 14198, 858, 1213, 210, 4122, 4122, 4122,
-	4122, 220, 4122, -21, 1145, -1000, -1000, -1000, -1000, 4122,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	879, 1218, 8006, 8006, 1290, -1000, 1024, -1000, -1000, -1000,
-	1210, -1000, -1000, 630, 1318, -1000, 9138, 428, -1000, 8006,
-	64, 963, -1000, -1000, 963, -1000, -1000, 410, -1000, -1000,
-	8572, 8572, 8572, 8572, 8572, 8572, 8572, -1000, -1000, -1000,
+	-1000, -1000, -1000, 14232, 849, 1157, 230, 4156, 4156, 4156,
+	4156, 177, 4156, -16, 1086, -1000, -1000, -1000, -1000, 4156,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 963, -1000, 7719, 963, 963, 963, 963, 963, 963,
-	963, 963, 8006, 963, 963, 963, 963, 963, 963, 963,
-	963, 963, 1810, 963, 963, 963, 963, 13072, 995, 1165,
-	-1000, -1000, -1000, 1251, 9992, 10832, 14198, 893, -1000, 1015,
-	5970, -36, -1000, -1000, -1000, 546, 10552, -1000, -1000, -1000,
-	1212, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	774, 1162, 8040, 8040, 1225, -1000, 981, -1000, -1000, -1000,
+	1149, -1000, -1000, 579, 1242, -1000, 9172, 397, -1000, 8040,
+	57, 993, -1000, -1000, 993, -1000, -1000, 352, -1000, -1000,
+	8606, 8606, 8606, 8606, 8606, 8606, 8606, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 993, -1000, 7753, 993, 993, 993, 993, 993, 993,
+	993, 993, 8040, 993, 993, 993, 993, 993, 993, 993,
+	993, 993, 1916, 993, 993, 993, 993, 13106, 950, 1014,
+	-1000, -1000, -1000, 1186, 10026, 10866, 14232, 937, -1000, 990,
+	6004, -36, -1000, -1000, -1000, 534, 10586, -1000, -1000, -1000,
+	1156, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2318,155 +2320,156 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 908, -1000, 2736, 365, -1000, -1000, 14198, 1120, 842,
-	595, 840, 1142, 283, 14198, -1000, 12792, 4122, 318, 14198,
-	1238, 1141, 14198, 838, 833, -1000, 5662, -1000, 4122, 4122,
-	4122, 4122, 4122, 4122, 4122, 4122, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4122, 4122, -1000, 7, -1000, 14198, -1000, -1000,
-	-1000, -1000, 1329, 429, 780, 427, 1020, -1000, 629, 1281,
-	879, 1181, 10272, 1014, -1000, -1000, 14198, -1000, 8006, 8006,
-	713, -1000, 12512, -1000, -1000, 4430, 452, 8572, 704, 550,
-	8572, 8572, 8572, 8572, 8572, 8572, 8572, 8572, 8572, 8572,
-	8572, 8572, 8572, 8572, 8572, 746, 1810, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 831, -1000, 1024, 962, 962,
-	16, 16, 16, 16, 16, 16, 8855, 6858, 879, 906,
-	631, 7719, 7432, 7432, 8006, 8006, 14478, 14478, 7432, 1253,
-	518, 631, 14478, -1000, 879, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 72, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7432, 7432, 7432, 7432, 212, 14198, -1000, 14478,
-	11952, 11952, 11952, 11952, 11952, -1000, 1178, 1174, -1000, 1170,
-	1156, 1157, 14198, -1000, 899, 9992, 417, 963, -1000, 12232,
-	-1000, -1000, 212, 950, 11952, 14198, -1000, -1000, 5354, 1015,
-	-36, 1003, -1000, -30, -26, 6571, 440, -1000, -1000, -1000,
-	-1000, 3506, 1321, 1741, -131, 17, -1000, -1000, -1000, -1000,
-	1076, -1000, 1076, 214, 1076, 1076, 1076, -1000, 1076, 1076,
-	52, 52, 52, 52, 52, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1106, 1102, -1000, 1076, 1076, 1076, -1000, 1076,
+	-1000, 903, -1000, 2705, 331, -1000, -1000, 14232, 1015, 838,
+	552, 833, 1082, 263, 14232, -1000, 12826, 4156, 295, 14232,
+	1170, 1077, 14232, 820, 818, -1000, 5696, -1000, 4156, 4156,
+	4156, 4156, 4156, 4156, 4156, 4156, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4156, 4156, -1000, 31, -1000, 14232, -1000, -1000,
+	-1000, -1000, 1256, 429, 706, 390, 991, -1000, 538, 1214,
+	774, 1123, 10306, 1106, -1000, -1000, 14232, -1000, 8040, 8040,
+	617, -1000, 12546, -1000, -1000, 4464, 437, 8606, 629, 479,
+	8606, 8606, 8606, 8606, 8606, 8606, 8606, 8606, 8606, 8606,
+	8606, 8606, 8606, 8606, 8606, 723, 1916, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 811, -1000, 981, 803, 803,
+	21, 21, 21, 21, 21, 21, 8889, 6892, 774, 901,
+	486, 7753, 7466, 7466, 8040, 8040, 14512, 14512, 7466, 1174,
+	518, 486, 14512, -1000, 774, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 74, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1094, 263, 1094, 1080, 1080, -1000, -1000, 13918, 1245, -83,
-	820, 4122, 1234, 4122, 14198, 1315, 14198, -1000, -1000, -1000,
-	841, 14198, -1000, 14198, -1000, -1000, 14198, 4122, -1000, -1000,
+	-1000, -1000, 7466, 7466, 7466, 7466, 200, 14232, -1000, 14512,
+	11986, 11986, 11986, 11986, 11986, -1000, 1118, 1116, -1000, 1100,
+	1099, 1111, 14232, -1000, 893, 10026, 379, 993, -1000, 12266,
+	-1000, -1000, 200, 929, 11986, 14232, -1000, -1000, 5388, 990,
+	-36, 979, -1000, -25, -11, 6605, 416, -1000, -1000, -1000,
+	-1000, 3540, 871, 141, -127, 15, -1000, -1000, -1000, -1000,
+	1026, -1000, 1026, 241, 1026, 1026, 1026, -1000, 1026, 1026,
+	69, 69, 69, 69, 69, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1056, 1053, -1000, 1026, 1026, 1026, -1000, 1026,
+	-1000, 1026, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	1041, 243, 1041, 1027, 1027, -1000, -1000, 13952, 1185, -92,
+	802, 4156, 1166, 4156, 14232, 1289, 14232, -1000, -1000, -1000,
+	2057, 14232, -1000, 14232, -1000, -1000, 14232, 4156, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 507, -1000, -1000, -1000, -1000, 1194, 8006,
-	8006, 5046, 8006, -1000, -1000, -1000, 1218, -1000, 1253, 1283,
-	-1000, 1202, 1201, 7432, -1000, -1000, 452, 455, -1000, -1000,
-	663, -1000, -1000, -1000, -1000, 421, 963, -1000, 1866, -1000,
-	-1000, -1000, -1000, 704, 8572, 8572, 8572, 177, 1866, 1743,
-	718, 284, 16, 32, 32, 15, 15, 15, 15, 15,
-	337, 337, -1000, -1000, -1000, -1000, 879, -1000, -1000, -1000,
-	879, 7432, 1012, -1000, -1000, 8006, -1000, 879, 888, 888,
-	574, 531, 1005, -1000, 416, 996, 888, 7432, 571, -1000,
-	8006, 879, -1000, -1000, 888, 879, 888, 888, 1040, 963,
-	-1000, 988, -1000, 542, 1165, 1119, 1137, 1138, -1000, -1000,
-	-1000, -1000, 1163, -1000, 1112, -1000, -1000, -1000, -1000, -1000,
-	362, 359, 347, 13918, -1000, 1309, 11952, 983, -1000, -1000,
-	1003, -36, -43, -1000, -1000, -1000, -1000, 631, -1000, -1000,
-	813, 999, 3155, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1101, 620, 13918, 261, 270, 409, 408, 806, -1000,
-	-1000, -1000, 698, -1000, 13918, 1328, -1000, -1000, 259, -1000,
-	258, 588, 770, 14198, 123, 1096, 1188, -1000, -208, -1000,
-	8, -1000, -1000, 751, 52, 52, 1076, 52, 52, 52,
-	-1000, -1000, 440, 1206, 440, 440, 440, 440, 769, 769,
-	-85, -85, -1000, -1000, -1000, 750, 1094, -1000, -1000, -1000,
-	749, -1000, 1100, 1024, -1000, 4738, -1000, -1000, -1000, -1000,
-	-1000, 1242, 1133, -1000, -1000, -1000, 167, -1000, 1004, 2076,
-	430, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 207, 394, -1000, 4122, -1000, 549, 14198, 14198,
-	1192, 631, 631, 415, -1000, -1000, 14198, -1000, -1000, -1000,
-	-1000, 991, -1000, -1000, -1000, 3814, 7432, -1000, 177, 1866,
-	1726, -1000, 8572, 8572, -1000, -1000, 888, 7432, 631, -1000,
-	-1000, -1000, 1922, 746, 1922, 8572, 8572, 5046, 8572, 8572,
-	-76, 984, 495, -1000, 8006, 489, -1000, -1000, -1000, -1000,
-	-1000, 1125, 14478, 963, -1000, 9705, 13918, 1290, 14478, 8006,
-	8006, -1000, -1000, 8006, 1093, -1000, 8006, -1000, -1000, -1000,
-	963, 963, 963, 870, -1000, 1290, 983, -1000, -1000, -1000,
-	-42, -49, -1000, -1000, 3506, -1000, 3506, 11672, -1000, 1317,
-	1277, 273, 287, -1000, 804, 803, -1000, 782, -1000, 6,
-	-1000, -174, 83, 96, -1000, -1000, 963, -1000, 1092, 1241,
-	-1000, 1211, 725, -1000, 297, -196, -1000, -1000, -1000, -1000,
-	-1000, -1000, 963, 1091, 1089, -1000, 1084, -1000, -1000, -1000,
-	930, 440, 440, 52, 440, 440, 440, -1000, 494, -1000,
-	-1000, -1000, -1000, 886, -1000, 884, -1000, 85, 84, -1000,
-	987, -1000, 882, 14198, 13918, -1000, 972, -1000, 537, 1266,
-	191, 14198, 1315, -1000, 268, -1000, 13918, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 13918, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 14198, -1000, -1000,
-	-1000, -1000, -1000, 13918, 280, -1000, -1000, 767, 8006, -1000,
-	-1000, -1000, 4738, -1000, 1309, 11952, -1000, -1000, 879, -1000,
-	8572, 1866, 1866, -1000, -1000, 879, 1076, 1076, -1000, 1076,
-	1080, -1000, -1000, 1076, 101, 1076, 99, 879, 879, 206,
-	1273, -1000, 150, 100, 963, -70, -1000, 631, 8006, -1000,
-	1222, 943, 951, -1000, -1000, 7145, 879, 874, 413, 870,
-	1281, -1000, 631, 631, 631, 11112, 631, 11112, 11112, 11112,
-	9418, 13918, 1281, -1000, -1000, -1000, -1000, 3155, -1000, 868,
-	-1000, 1076, 1076, 303, 303, -181, 257, 252, -1000, -1000,
-	-1000, -1000, -183, -1000, -1000, 588, -1000, 8006, 11112, -173,
-	-1000, 959, 929, 805, -1000, 2525, 879, -1000, 741, -1000,
-	734, 921, -1000, -1000, -1000, 440, -1000, -1000, -1000, -1000,
-	-1000, 52, 765, 52, 12, 11, 720, -1000, 712, 1011,
-	1124, 4738, 3506, 286, 1300, -1000, -1000, 1260, 1240, 13918,
-	-1000, -1000, -1000, 1075, -1000, -1000, -1000, -1000, 1225, 13918,
-	-1000, -1000, 631, 1306, 952, -1000, 1866, -1000, -1000, 209,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 8572,
-	8572, -1000, 8572, 8572, 8572, 879, 743, 631, 235, -1000,
-	963, -1000, -1000, 1002, 13918, 13918, -1000, -1000, 866, -1000,
-	-1000, 848, 848, 848, 417, -1000, -1000, 742, 11672, 1235,
-	-1000, 618, -1000, -1000, 603, 158, 579, -1000, 13918, -183,
-	-1000, 963, 611, 846, 1074, 711, -1000, 919, -1000, -131,
-	-1000, -1000, -1000, -1000, -1000, 440, -1000, 440, -1000, -1000,
-	912, 910, 11672, 13918, 14198, -1000, -1000, 13918, -1000, -1000,
-	-1000, -1000, -1000, 137, 227, 1067, 11112, 963, 285, 1303,
-	1285, -1000, -1000, 514, 514, 514, 514, 80, -1000, -1000,
-	1327, -1000, 963, -1000, 1024, 407, -1000, 13918, -1000, -1000,
-	-1000, -1000, -1000, 1123, 947, 116, -1000, 773, 523, 719,
-	493, 492, 491, 483, 482, 475, 471, -1000, -1000, -1000,
-	1322, -1000, -1000, -1000, 1324, 1066, -1000, 1052, 8006, 183,
-	-1000, -1000, 909, 903, -1000, -1000, -1000, -1000, -1000, 837,
-	1051, 1047, 897, -1000, 121, 227, -1000, -1000, -1000, -1000,
-	11672, 828, 200, 226, -1000, 8006, 8006, -1000, -1000, -1000,
-	-1000, 879, 164, -127, 14478, 951, 879, 13918, -1000, -1000,
-	13918, -1000, -107, 947, 13918, -1000, 710, -1000, -1000, 669,
-	685, 669, 669, 669, 669, 669, 303, 303, 13918, 11672,
-	611, -1000, -72, 168, -1000, -1000, -187, 11672, 11672, -82,
-	13918, 8006, 227, -1000, 826, 1120, 824, -1000, 13918, 1044,
-	631, 941, -1000, 1189, -80, -153, 932, -1000, -1000, 963,
-	812, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 588, 588, 801, 799, -1000, -1000, -1000,
-	129, 729, 665, 664, 639, 44, -1000, 1284, 1309, 1037,
-	795, 792, -1000, -198, -1000, 631, -1000, -1000, -83, -1000,
-	200, 1200, 11672, -1000, 1187, -1000, 13918, -1000, 947, -1000,
-	-1000, 278, 742, 636, -1000, 625, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 11392, 742, 11112, 1309, 742, 8006, -1000,
-	-1000, 195, 787, -101, 879, -1000, 14198, 1123, -1000, -1000,
-	-1000, 403, 1123, 781, 742, -1000, 631, 182, -1000, -143,
-	-1000, 1033, -1000, 4738, -1000, -1000, -1000, 963, -154, 13918,
-	-1000, 8289, -1000, 777, 514, 879, -1000, -1000, -1000,
+	-1000, -1000, -1000, 514, -1000, -1000, -1000, -1000, 1133, 8040,
+	8040, 5080, 8040, -1000, -1000, -1000, 1162, -1000, 1174, 1204,
+	-1000, 1150, 1147, 7466, -1000, -1000, 437, 525, -1000, -1000,
+	634, -1000, -1000, -1000, -1000, 389, 993, -1000, 1915, -1000,
+	-1000, -1000, -1000, 629, 8606, 8606, 8606, 23, 1915, 1968,
+	441, 265, 21, 121, 121, 62, 62, 62, 62, 62,
+	415, 415, -1000, -1000, -1000, -1000, 774, -1000, -1000, -1000,
+	774, 7466, 983, -1000, -1000, 8040, -1000, 774, 884, 884,
+	478, 738, 961, -1000, 377, 959, 884, 7466, 542, -1000,
+	8040, 774, -1000, -1000, 884, 774, 884, 884, 921, 993,
+	-1000, 956, -1000, 531, 1014, 1064, 1074, 869, -1000, -1000,
+	-1000, -1000, 1110, -1000, 1101, -1000, -1000, -1000, -1000, -1000,
+	317, 311, 299, 13952, -1000, 1238, 11986, 955, -1000, -1000,
+	979, -36, 8, -1000, -1000, -1000, -1000, 486, -1000, -1000,
+	801, 978, 3232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1045, 608, 13952, 246, 266, 353, 334, 786, -1000,
+	-1000, -1000, 607, -1000, 13952, 1253, -1000, -1000, 239, -1000,
+	220, 551, 733, 14232, 145, 1043, 1631, -1000, -210, -1000,
+	13, -1000, -1000, 697, 69, 69, 1026, 69, 69, 69,
+	-1000, -1000, 416, 1155, 416, 416, 416, 416, 726, 726,
+	-97, -97, -1000, -1000, -1000, -1000, 696, 1041, -1000, -1000,
+	-1000, 693, -1000, 1052, 981, -1000, 4772, -1000, -1000, -1000,
+	-1000, -1000, 1184, 1069, -1000, -1000, -1000, 154, -1000, 1004,
+	1112, 350, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 199, 343, -1000, 4156, -1000, 560, 14232,
+	14232, 1131, 486, 486, 373, -1000, -1000, 14232, -1000, -1000,
+	-1000, -1000, 949, -1000, -1000, -1000, 3848, 7466, -1000, 23,
+	1915, 1895, -1000, 8606, 8606, -1000, -1000, 884, 7466, 486,
+	-1000, -1000, -1000, 1250, 723, 1250, 8606, 8606, 5080, 8606,
+	8606, -82, 960, 480, -1000, 8040, 484, -1000, -1000, -1000,
+	-1000, -1000, 1068, 14512, 993, -1000, 9739, 13952, 1225, 14512,
+	8040, 8040, -1000, -1000, 8040, 1039, -1000, 8040, -1000, -1000,
+	-1000, 993, 993, 993, 844, -1000, 1225, 955, -1000, -1000,
+	-1000, -31, -53, -1000, -1000, 3540, -1000, 3540, 11706, -1000,
+	1265, 1211, 245, 269, -1000, 775, 769, -1000, 756, -1000,
+	32, -1000, -165, 79, 0, -1000, -1000, 993, -1000, 1037,
+	1182, -1000, 1160, 691, -1000, 1144, -199, -1000, -1000, -1000,
+	-1000, -1000, -1000, 993, 1034, 1030, -1000, 1028, -1000, -1000,
+	-1000, 905, 416, 416, 69, 416, 416, 416, -1000, 454,
+	-1000, -1000, -1000, -1000, 882, -1000, 879, -1000, 89, 85,
+	-1000, 977, -1000, 876, 14232, 13952, -1000, 946, -1000, 526,
+	1209, 156, 14232, 1289, -1000, 249, -1000, 13952, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 13952, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 14232, -1000,
+	-1000, -1000, -1000, -1000, 13952, 258, -1000, -1000, 718, 8040,
+	-1000, -1000, -1000, 4772, -1000, 1238, 11986, -1000, -1000, 774,
+	-1000, 8606, 1915, 1915, -1000, -1000, 774, 1026, 1026, -1000,
+	1026, 1027, -1000, -1000, 1026, 105, 1026, 97, 774, 774,
+	207, 1880, -1000, 150, 1500, 993, -74, -1000, 486, 8040,
+	-1000, 1163, 911, 916, -1000, -1000, 7179, 774, 847, 372,
+	844, 1214, -1000, 486, 486, 486, 11146, 486, 11146, 11146,
+	11146, 9452, 13952, 1214, -1000, -1000, -1000, -1000, 3232, -1000,
+	842, -1000, 1026, 1026, 309, 309, -174, 218, 215, -1000,
+	-1000, -1000, -1000, -175, -1000, -1000, 551, -1000, 8040, 11146,
+	-139, -1000, 944, 898, 982, -1000, 2497, 774, -1000, 640,
+	-1000, 638, 889, -1000, -1000, -1000, 416, -1000, -1000, -1000,
+	-1000, -1000, 69, 715, 69, 11, 10, 685, -1000, 683,
+	974, 1067, 4772, 3540, 294, 1315, -1000, -1000, 1194, 1178,
+	13952, -1000, -1000, -1000, 1025, -1000, -1000, -1000, -1000, 1165,
+	13952, -1000, -1000, 486, 1236, 923, -1000, 1915, -1000, -1000,
+	223, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	8606, 8606, -1000, 8606, 8606, 8606, 774, 705, 486, 213,
+	-1000, 993, -1000, -1000, 972, 13952, 13952, -1000, -1000, 837,
+	-1000, -1000, 832, 832, 832, 379, -1000, -1000, 653, 11706,
+	1173, -1000, 580, -1000, -1000, 571, 159, 577, -1000, 13952,
+	-175, -1000, 993, 727, 828, 1024, 678, -1000, 868, -1000,
+	-127, -1000, -1000, -1000, -1000, -1000, 416, -1000, 416, -1000,
+	-1000, 863, 848, 11706, 13952, 14232, -1000, -1000, 13952, -1000,
+	-1000, -1000, -1000, -1000, 137, 226, 1022, 11146, 993, 262,
+	1231, 1219, -1000, -1000, 1272, 1272, 1272, 1272, 84, -1000,
+	-1000, 1251, -1000, 993, -1000, 981, 370, -1000, 13952, -1000,
+	-1000, -1000, -1000, -1000, 1062, 667, 136, -1000, 737, 517,
+	704, 494, 490, 472, 470, 465, 448, 446, -1000, -1000,
+	-1000, 1249, -1000, -1000, -1000, 1246, 1018, -1000, 1017, 8040,
+	170, -1000, -1000, 829, 800, -1000, -1000, -1000, -1000, -1000,
+	825, 1013, 1011, 888, -1000, 140, 226, -1000, -1000, -1000,
+	-1000, 11706, 817, 198, 211, -1000, 8040, 8040, -1000, -1000,
+	-1000, -1000, 774, 155, -122, 14512, 916, 774, 13952, -1000,
+	-1000, 13952, -1000, -101, 667, 13952, -1000, 671, -1000, -1000,
+	591, 661, 591, 591, 591, 591, 591, 309, 309, 13952,
+	11706, 727, -1000, -77, 298, -1000, -1000, -183, 11706, 11706,
+	-91, 13952, 8040, 226, -1000, 799, 1015, 797, -1000, 13952,
+	1010, 486, 913, -1000, 1127, -89, -124, 870, -1000, -1000,
+	993, 795, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 551, 551, 792, 785, -1000, -1000,
+	-1000, 139, 645, 658, 657, 647, -10, -1000, 1217, 1238,
+	1000, 773, 753, -1000, -201, -1000, 486, -1000, -1000, -92,
+	-1000, 198, 1145, 11706, -1000, 1122, -1000, 13952, -1000, 667,
+	-1000, -1000, 255, 653, 620, -1000, 589, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 11426, 653, 11146, 1238, 653, 8040,
+	-1000, -1000, 195, 749, -95, 774, -1000, 14232, 1062, -1000,
+	-1000, -1000, 367, 1062, 747, 653, -1000, 486, 185, -1000,
+	-126, -1000, 994, -1000, 4772, -1000, -1000, -1000, 993, -125,
+	13952, -1000, 8323, -1000, 742, 1272, 774, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1587, 39, 829, 1582, 1580, 1578, 1360, 1357, 1351,
-	1577, 1570, 1566, 1564, 1563, 1558, 1556, 1555, 1544, 1542,
-	1540, 1539, 1533, 1532, 372, 1531, 1530, 1529, 99, 1528,
-	101, 1526, 1525, 59, 213, 67, 53, 1335, 1522, 81,
-	118, 122, 1520, 75, 1519, 1518, 104, 1517, 91, 1515,
-	1514, 30, 1513, 1512, 23, 6, 1511, 42, 1510, 1509,
-	94, 37, 1508, 1507, 1506, 1505, 1503, 1502, 79, 10,
-	13, 17, 25, 1501, 127, 11, 1500, 77, 1499, 1498,
-	1497, 1496, 54, 1494, 84, 24, 34, 83, 1493, 19,
-	1492, 88, 58, 41, 27, 102, 85, 1491, 55, 92,
-	82, 1490, 1488, 714, 1484, 1482, 1481, 1479, 1475, 1474,
-	620, 715, 1473, 1472, 1471, 60, 0, 217, 12, 103,
-	1470, 61, 1469, 1846, 106, 89, 45, 1467, 51, 184,
-	56, 1464, 1462, 57, 100, 36, 33, 22, 1459, 1454,
-	1453, 1452, 1445, 1057, 48, 32, 14, 1444, 1443, 16,
-	70, 68, 46, 71, 90, 1437, 1432, 1431, 47, 1429,
-	28, 18, 2, 74, 1428, 1419, 1416, 1415, 52, 26,
-	1414, 21, 44, 1, 4, 3, 1413, 1405, 1404, 5,
-	1400, 31, 1397, 9, 1396, 7, 1395, 1393, 1391, 1390,
-	1389, 1388, 1387, 1384, 1383, 1381, 15, 29, 50, 43,
-	20, 66, 49, 1380, 8, 1379, 1377, 1401, 696, 1362,
-	1355, 1353, 1349, 109,
+	0, 1529, 40, 784, 1527, 1526, 1525, 1309, 1305, 1282,
+	1523, 1521, 1520, 1518, 1516, 1515, 1514, 1513, 1512, 1511,
+	1510, 1509, 1508, 1507, 371, 1505, 1504, 1503, 98, 1502,
+	99, 1501, 1500, 60, 190, 55, 53, 1495, 1499, 44,
+	96, 90, 1498, 74, 1497, 1492, 102, 1491, 91, 1489,
+	1485, 130, 1483, 1482, 22, 6, 1481, 26, 1480, 1477,
+	101, 37, 1474, 1473, 1471, 1470, 1468, 1466, 76, 10,
+	14, 8, 24, 1465, 136, 52, 1463, 75, 1461, 1460,
+	1459, 1454, 56, 1453, 82, 18, 46, 81, 1452, 19,
+	1444, 85, 58, 43, 11, 100, 84, 1443, 51, 87,
+	70, 1441, 1440, 653, 1438, 1433, 1429, 1427, 1426, 1424,
+	532, 619, 1421, 1420, 1415, 57, 0, 217, 15, 103,
+	1407, 61, 1405, 1803, 108, 89, 29, 1401, 48, 173,
+	59, 1399, 1398, 54, 97, 30, 36, 33, 1397, 1393,
+	1392, 1391, 1388, 1137, 42, 71, 28, 1385, 1384, 16,
+	67, 66, 32, 68, 83, 1380, 1379, 1378, 45, 1376,
+	31, 20, 2, 77, 1375, 1362, 1361, 1358, 50, 25,
+	1357, 23, 12, 1, 4, 3, 1355, 1354, 1352, 5,
+	1350, 27, 1347, 9, 1346, 7, 1344, 1338, 1332, 1330,
+	1328, 1327, 1322, 1318, 1314, 1312, 39, 17, 49, 34,
+	21, 65, 47, 1307, 13, 1302, 1293, 1402, 697, 1291,
+	1286, 1280, 1278, 104,
 }
 
 var yyR1 = [...]int{
@@ -2593,7 +2596,7 @@ var yyR2 = [...]int{
 	3, 1, 3, 0, 2, 0, 2, 3, 2, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	2, 3, 2, 2, 2, 2, 1, 1, 1, 3,
-	3, 2, 1, 2, 1, 1, 1, 1, 4, 4,
+	3, 2, 1, 2, 1, 2, 1, 1, 4, 4,
 	4, 4, 4, 1, 5, 2, 2, 3, 3, 3,
 	3, 3, 1, 1, 1, 1, 1, 1, 1, 6,
 	6, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2772,80 +2775,80 @@ var yyChk = [...]int{
 	134, 312, 64, 128, 297, 299, 28, -149, 314, 236,
 	-147, 244, -143, 52, -143, -143, 208, -143, -143, -143,
 	-143, -143, -145, 210, -145, -145, -145, -145, 52, 52,
-	-143, -143, -143, -143, -151, 52, 193, -151, -151, -152,
-	52, -152, -117, 22, -183, 291, -184, 55, -129, 23,
-	-129, -51, -202, 8, 9, 10, -51, -112, 117, 114,
-	115, -180, 113, 241, 210, 64, 28, 15, 280, 145,
-	296, 55, 146, -51, -51, -51, -129, -107, 11, 90,
-	36, -37, -37, -124, -84, -87, -102, 19, 11, 32,
-	32, -34, 66, 67, 68, 109, -207, -68, -61, -61,
-	-61, -33, 140, 71, -208, -208, -34, 53, -37, -208,
-	-208, -208, 53, 51, 22, 53, 11, 109, 53, 11,
-	-208, -34, -79, -77, 78, -37, -208, -208, -208, -208,
-	-208, -59, 29, 32, -2, -207, -207, -55, 53, 12,
-	80, -44, -43, 50, 51, -45, 50, -43, 40, 40,
-	120, 120, 120, -92, -117, -55, -39, -55, -100, -101,
-	266, 263, 269, 55, 53, -169, 80, 52, -196, 50,
-	72, -161, -117, 135, -163, -163, 55, -163, 55, 55,
-	66, 19, -117, 9, 135, 135, -196, 57, -123, -194,
-	298, 16, 52, -199, 52, 57, 58, 59, 66, -144,
-	65, -57, 237, 270, 273, 272, 238, 315, -148, 245,
-	58, -145, -145, -143, -145, -145, -145, -146, 29, -146,
-	-146, -146, -146, -153, 57, -153, -150, 291, 292, -150,
-	58, -151, 58, 50, 51, -2, -182, -181, -118, -187,
-	22, 50, -201, -128, -121, -211, 151, 126, 131, 130,
-	55, 125, 129, 145, -186, 151, 126, 127, 131, 130,
-	55, 120, 135, 125, 129, 145, 134, -113, -114, 122,
-	22, 120, 135, 145, 117, -129, -109, 88, 12, -123,
-	-123, 37, 109, -51, -38, 11, 97, -118, -35, -33,
-	71, -61, -61, -208, -36, -133, 106, 206, 139, 201,
-	195, 225, 226, 212, 243, 199, 244, -130, -133, -61,
-	-61, -118, -61, -61, 288, -82, 79, -37, 77, -93,
-	50, -94, -70, -72, -71, -207, -2, -88, -117, -92,
-	-82, -98, -37, -37, -37, 52, -37, -207, -207, -207,
-	-208, 53, -82, -55, 263, 267, 268, -168, -169, -172,
-	-171, -117, 135, 10, 9, 19, 131, 125, 55, 55,
-	55, -197, 134, 309, -198, 312, -144, -207, 52, 22,
-	28, 58, -199, 52, -189, 311, -207, -143, 52, -143,
-	52, 52, 54, -146, -146, -145, -146, -146, -146, 55,
-	106, 54, 53, 54, 199, 199, 53, 54, 53, -51,
-	-117, 53, 80, -188, 19, 159, 160, -51, -202, -210,
-	120, 135, -128, -117, -128, -117, -51, -128, -117, 127,
-	-158, 57, -37, -55, -39, -208, -61, -208, -143, -143,
-	-143, -152, -143, 186, -143, 186, -208, -208, -208, 53,
-	19, -208, 53, 19, -207, -32, 285, -37, 27, -93,
-	53, -208, -208, -208, 53, 109, -208, -86, -89, -117,
-	135, -89, -89, -89, -126, -117, -86, 54, 53, -143,
-	-143, -160, 155, 156, 29, 157, -160, 309, 135, 135,
-	-197, -196, -37, -89, 299, 53, 54, -199, 239, -135,
-	-208, 54, 54, 54, -146, -145, 57, -145, 246, 246,
-	58, 58, 52, 51, 50, -181, -169, 122, 20, 6,
-	8, 9, 10, 19, 22, -117, 52, 26, -117, -80,
-	13, -145, 55, -61, -61, -61, -61, -61, -208, 57,
-	135, -72, 32, -2, -207, -117, -117, 53, 54, -208,
-	-208, -208, -54, -174, -176, 291, -175, 51, 132, 64,
-	164, 165, 166, 167, 168, 169, 170, -171, -85, -196,
-	50, 66, 158, -196, 50, -161, -117, -197, -207, -208,
-	54, 52, 58, 54, -149, -146, -146, 54, 54, -172,
-	-117, -51, -162, -117, 173, -203, -204, -7, -9, -8,
-	52, -89, -207, 125, -81, 14, 16, -208, -208, -208,
-	-208, -31, 90, 291, 9, -70, -2, 109, -117, -173,
-	50, -175, 291, 52, 293, 55, -164, 80, 57, 80,
-	80, 80, 80, 80, 80, 80, 9, 10, 52, 52,
-	-37, -193, 157, -195, 54, 54, 54, 52, 52, -190,
-	53, 51, 174, -204, -172, 54, -178, -179, 145, 135,
-	-37, -69, -208, 289, 47, 294, -94, -208, -117, -117,
-	-177, -175, -117, 58, -200, 50, 69, 58, -200, -200,
-	-200, -200, -200, -160, -160, -162, -172, -208, 286, 54,
-	176, 301, 302, 144, 303, 157, 304, 305, -90, 310,
-	-172, -172, -191, 291, -117, -37, -204, 54, -185, -208,
-	53, -117, 52, 37, 290, 295, -207, 54, 53, -196,
-	-196, 54, 54, 291, 58, 16, 58, 58, 58, 58,
-	302, 144, 304, 16, -55, 52, 54, 54, 312, -183,
-	-179, 32, -172, 37, -117, -175, 128, -174, 58, 58,
-	306, -123, -174, -89, -55, -174, -37, 147, 54, 291,
-	-208, -51, -173, 109, -173, 54, -174, 148, 294, 52,
-	-118, -207, 295, -162, -61, 144, 54, -208, -208,
+	-143, -143, -143, -143, -143, -151, 52, 193, -151, -151,
+	-152, 52, -152, -117, 22, -183, 291, -184, 55, -129,
+	23, -129, -51, -202, 8, 9, 10, -51, -112, 117,
+	114, 115, -180, 113, 241, 210, 64, 28, 15, 280,
+	145, 296, 55, 146, -51, -51, -51, -129, -107, 11,
+	90, 36, -37, -37, -124, -84, -87, -102, 19, 11,
+	32, 32, -34, 66, 67, 68, 109, -207, -68, -61,
+	-61, -61, -33, 140, 71, -208, -208, -34, 53, -37,
+	-208, -208, -208, 53, 51, 22, 53, 11, 109, 53,
+	11, -208, -34, -79, -77, 78, -37, -208, -208, -208,
+	-208, -208, -59, 29, 32, -2, -207, -207, -55, 53,
+	12, 80, -44, -43, 50, 51, -45, 50, -43, 40,
+	40, 120, 120, 120, -92, -117, -55, -39, -55, -100,
+	-101, 266, 263, 269, 55, 53, -169, 80, 52, -196,
+	50, 72, -161, -117, 135, -163, -163, 55, -163, 55,
+	55, 66, 19, -117, 9, 135, 135, -196, 57, -123,
+	-194, 298, 16, 52, -199, 52, 57, 58, 59, 66,
+	-144, 65, -57, 237, 270, 273, 272, 238, 315, -148,
+	245, 58, -145, -145, -143, -145, -145, -145, -146, 29,
+	-146, -146, -146, -146, -153, 57, -153, -150, 291, 292,
+	-150, 58, -151, 58, 50, 51, -2, -182, -181, -118,
+	-187, 22, 50, -201, -128, -121, -211, 151, 126, 131,
+	130, 55, 125, 129, 145, -186, 151, 126, 127, 131,
+	130, 55, 120, 135, 125, 129, 145, 134, -113, -114,
+	122, 22, 120, 135, 145, 117, -129, -109, 88, 12,
+	-123, -123, 37, 109, -51, -38, 11, 97, -118, -35,
+	-33, 71, -61, -61, -208, -36, -133, 106, 206, 139,
+	201, 195, 225, 226, 212, 243, 199, 244, -130, -133,
+	-61, -61, -118, -61, -61, 288, -82, 79, -37, 77,
+	-93, 50, -94, -70, -72, -71, -207, -2, -88, -117,
+	-92, -82, -98, -37, -37, -37, 52, -37, -207, -207,
+	-207, -208, 53, -82, -55, 263, 267, 268, -168, -169,
+	-172, -171, -117, 135, 10, 9, 19, 131, 125, 55,
+	55, 55, -197, 134, 309, -198, 312, -144, -207, 52,
+	22, 28, 58, -199, 52, -189, 311, -207, -143, 52,
+	-143, 52, 52, 54, -146, -146, -145, -146, -146, -146,
+	55, 106, 54, 53, 54, 199, 199, 53, 54, 53,
+	-51, -117, 53, 80, -188, 19, 159, 160, -51, -202,
+	-210, 120, 135, -128, -117, -128, -117, -51, -128, -117,
+	127, -158, 57, -37, -55, -39, -208, -61, -208, -143,
+	-143, -143, -152, -143, 186, -143, 186, -208, -208, -208,
+	53, 19, -208, 53, 19, -207, -32, 285, -37, 27,
+	-93, 53, -208, -208, -208, 53, 109, -208, -86, -89,
+	-117, 135, -89, -89, -89, -126, -117, -86, 54, 53,
+	-143, -143, -160, 155, 156, 29, 157, -160, 309, 135,
+	135, -197, -196, -37, -89, 299, 53, 54, -199, 239,
+	-135, -208, 54, 54, 54, -146, -145, 57, -145, 246,
+	246, 58, 58, 52, 51, 50, -181, -169, 122, 20,
+	6, 8, 9, 10, 19, 22, -117, 52, 26, -117,
+	-80, 13, -145, 55, -61, -61, -61, -61, -61, -208,
+	57, 135, -72, 32, -2, -207, -117, -117, 53, 54,
+	-208, -208, -208, -54, -174, -176, 291, -175, 51, 132,
+	64, 164, 165, 166, 167, 168, 169, 170, -171, -85,
+	-196, 50, 66, 158, -196, 50, -161, -117, -197, -207,
+	-208, 54, 52, 58, 54, -149, -146, -146, 54, 54,
+	-172, -117, -51, -162, -117, 173, -203, -204, -7, -9,
+	-8, 52, -89, -207, 125, -81, 14, 16, -208, -208,
+	-208, -208, -31, 90, 291, 9, -70, -2, 109, -117,
+	-173, 50, -175, 291, 52, 293, 55, -164, 80, 57,
+	80, 80, 80, 80, 80, 80, 80, 9, 10, 52,
+	52, -37, -193, 157, -195, 54, 54, 54, 52, 52,
+	-190, 53, 51, 174, -204, -172, 54, -178, -179, 145,
+	135, -37, -69, -208, 289, 47, 294, -94, -208, -117,
+	-117, -177, -175, -117, 58, -200, 50, 69, 58, -200,
+	-200, -200, -200, -200, -160, -160, -162, -172, -208, 286,
+	54, 176, 301, 302, 144, 303, 157, 304, 305, -90,
+	310, -172, -172, -191, 291, -117, -37, -204, 54, -185,
+	-208, 53, -117, 52, 37, 290, 295, -207, 54, 53,
+	-196, -196, 54, 54, 291, 58, 16, 58, 58, 58,
+	58, 302, 144, 304, 16, -55, 52, 54, 54, 312,
+	-183, -179, 32, -172, 37, -117, -175, 128, -174, 58,
+	58, 306, -123, -174, -89, -55, -174, -37, 147, 54,
+	291, -208, -51, -173, 109, -173, 54, -174, 148, 294,
+	52, -118, -207, 295, -162, -61, 144, 54, -208, -208,
 }
 
 var yyDef = [...]int{
@@ -2920,7 +2923,7 @@ var yyDef = [...]int{
 	241, 179, 241, 241, 241, 241, 241, 213, 241, 241,
 	258, 258, 258, 258, 258, 222, 223, 224, 225, 226,
 	227, 228, 0, 0, 198, 241, 241, 241, 202, 241,
-	204, 205, 231, 232, 233, 234, 235, 236, 237, 238,
+	204, 241, 231, 232, 233, 234, 235, 236, 237, 238,
 	243, 243, 243, 245, 245, 196, 197, 0, 0, 99,
 	0, 994, 0, 994, 0, 0, 0, 71, 72, 106,
 	0, 0, 343, 0, 371, 723, 0, 994, 374, 375,
@@ -2945,80 +2948,80 @@ var yyDef = [...]int{
 	130, 318, 0, 0, 0, 0, 0, 119, 0, 257,
 	253, 252, 178, 0, 258, 258, 241, 258, 258, 258,
 	215, 216, 261, 0, 261, 261, 261, 261, 0, 0,
-	248, 248, 201, 203, 190, 0, 243, 192, 193, 194,
-	0, 195, 0, 0, 65, 0, 97, 98, 66, 725,
-	67, 81, 0, 73, 74, 75, 0, 993, 94, 0,
-	738, 344, 728, 729, 730, 731, 732, 733, 734, 735,
-	736, 737, 0, 0, 370, 994, 373, 411, 0, 0,
-	0, 682, 683, 0, 675, 23, 0, 720, 721, 666,
-	667, 455, 532, 534, 536, 0, 442, 523, 544, 527,
-	0, 524, 0, 0, 518, 584, 0, 0, 551, -2,
-	587, 588, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 672, 0, 650, 0, 0, 601, 613, 614, 615,
-	616, 697, 0, 0, -2, 0, 0, 672, 0, 0,
-	0, 471, 478, 0, 0, 472, 0, 473, 493, 495,
-	0, 0, 0, 0, 469, 672, 506, 38, 50, 51,
-	0, 0, 57, 263, 0, 328, 0, 0, 304, 0,
-	0, 0, 321, 290, 0, 0, 293, 0, 295, 315,
-	121, 0, 0, 0, 127, 129, 0, 133, 134, 0,
-	151, 0, 0, 140, 0, 175, 144, 145, 146, 147,
-	148, 149, 0, 241, 241, 171, 0, 256, 114, 254,
-	0, 261, 261, 258, 261, 261, 261, 217, 0, 218,
-	219, 220, 221, 0, 239, 0, 199, 0, 0, 200,
-	0, 191, 0, 0, 0, -2, 100, 101, 0, 84,
-	0, 0, 0, 333, 0, 993, 0, 358, 359, 360,
-	361, 362, 363, 364, 993, 0, 345, 346, 347, 348,
-	349, 350, 351, 352, 353, 354, 355, 0, 993, 739,
-	740, 741, 742, 0, 0, 372, 393, 0, 0, 409,
-	410, 686, 0, 24, 506, 0, 449, 656, 0, 525,
-	0, 545, 528, 585, 445, 0, 241, 241, 627, 241,
-	245, 630, 631, 241, 633, 241, 636, 0, 0, 0,
-	0, 655, 0, 0, 0, 647, 600, 653, 0, 31,
-	0, 697, 687, 699, 701, 0, 27, 0, 693, 0,
-	680, 706, 507, 707, 475, 0, 480, 0, 0, 0,
-	483, 0, 680, 37, 54, 55, 56, 326, 329, 0,
-	300, 241, 241, 0, 0, 0, 0, 0, 291, 292,
-	294, 296, 315, 139, 123, 318, 124, 0, 0, 0,
-	152, 0, 0, 0, 143, 0, 0, 167, 0, 169,
-	0, 0, 242, 208, 209, 261, 210, 211, 212, 259,
-	260, 258, 0, 258, 0, 0, 0, 246, 0, 0,
-	0, 0, 0, 0, 0, 82, 83, 0, 0, 0,
-	356, 357, 337, 0, 338, 340, 341, 342, 0, 320,
-	336, 412, 413, 668, 456, 586, 529, 589, 624, 258,
-	628, 629, 632, 634, 635, 637, 591, 590, 592, 0,
-	0, 595, 0, 0, 0, 0, 0, 651, 0, 32,
-	0, 702, -2, 0, 0, 0, 44, 35, 0, 466,
-	467, 0, 0, 0, 502, 470, 36, 265, 0, 677,
-	303, 318, 310, 311, 0, 0, 318, 319, 320, 315,
-	297, 0, 0, 0, 136, 0, 141, 0, 176, 255,
-	150, 168, 170, 172, 214, 261, 240, 261, 249, 250,
-	0, 0, 0, 0, 0, 102, 103, 0, 85, 86,
-	87, 88, 89, 0, 0, 0, 0, 0, 321, 670,
-	0, 625, 626, 0, 0, 0, 0, 617, 599, 648,
-	0, 700, 0, -2, 0, 695, 694, 0, 476, 503,
-	504, 505, 465, 287, 266, 0, 268, 0, 283, 0,
-	0, 0, 0, 0, 0, 0, 0, 301, 302, 305,
-	0, 312, 313, 306, 0, 0, 321, 0, 0, 173,
-	135, 153, 0, 0, 177, 229, 230, 244, 247, 0,
-	0, 0, 90, 322, 0, 70, 76, 78, 79, 80,
-	0, 0, 0, 0, 26, 0, 0, 593, 594, 596,
-	597, 0, 0, 0, 0, 690, 27, 0, 468, 264,
-	0, 269, 0, 0, 0, 272, 0, 284, 274, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 131, 0, 0, 138, 142, 508, 0, 0, 92,
-	0, 0, 0, 77, 0, 96, 0, 366, 0, 0,
-	671, 669, 598, 0, 0, 0, 698, -2, 696, 288,
-	0, 270, 275, 273, 276, 285, 286, 277, 278, 279,
-	280, 281, 282, 318, 318, 0, 0, 132, 174, 137,
-	0, 0, 0, 0, 0, 0, 164, 0, 506, 0,
-	0, 0, 68, 0, 323, 91, 69, 334, 99, 365,
-	0, 0, 0, 618, 0, 621, 0, 267, 0, 307,
-	308, 0, 265, 0, 155, 0, 157, 158, 159, 160,
-	161, 162, 163, 0, 265, 0, 506, 265, 0, 339,
-	367, 0, 0, 619, 0, 271, 0, 287, 154, 156,
-	165, 0, 287, 0, 265, 62, 93, 0, 335, 0,
-	289, 0, 314, 0, 61, 509, 63, 0, 0, 0,
-	166, 0, 620, 0, 0, 0, 309, 368, 369,
+	248, 248, 201, 203, 205, 190, 0, 243, 192, 193,
+	194, 0, 195, 0, 0, 65, 0, 97, 98, 66,
+	725, 67, 81, 0, 73, 74, 75, 0, 993, 94,
+	0, 738, 344, 728, 729, 730, 731, 732, 733, 734,
+	735, 736, 737, 0, 0, 370, 994, 373, 411, 0,
+	0, 0, 682, 683, 0, 675, 23, 0, 720, 721,
+	666, 667, 455, 532, 534, 536, 0, 442, 523, 544,
+	527, 0, 524, 0, 0, 518, 584, 0, 0, 551,
+	-2, 587, 588, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 672, 0, 650, 0, 0, 601, 613, 614,
+	615, 616, 697, 0, 0, -2, 0, 0, 672, 0,
+	0, 0, 471, 478, 0, 0, 472, 0, 473, 493,
+	495, 0, 0, 0, 0, 469, 672, 506, 38, 50,
+	51, 0, 0, 57, 263, 0, 328, 0, 0, 304,
+	0, 0, 0, 321, 290, 0, 0, 293, 0, 295,
+	315, 121, 0, 0, 0, 127, 129, 0, 133, 134,
+	0, 151, 0, 0, 140, 0, 175, 144, 145, 146,
+	147, 148, 149, 0, 241, 241, 171, 0, 256, 114,
+	254, 0, 261, 261, 258, 261, 261, 261, 217, 0,
+	218, 219, 220, 221, 0, 239, 0, 199, 0, 0,
+	200, 0, 191, 0, 0, 0, -2, 100, 101, 0,
+	84, 0, 0, 0, 333, 0, 993, 0, 358, 359,
+	360, 361, 362, 363, 364, 993, 0, 345, 346, 347,
+	348, 349, 350, 351, 352, 353, 354, 355, 0, 993,
+	739, 740, 741, 742, 0, 0, 372, 393, 0, 0,
+	409, 410, 686, 0, 24, 506, 0, 449, 656, 0,
+	525, 0, 545, 528, 585, 445, 0, 241, 241, 627,
+	241, 245, 630, 631, 241, 633, 241, 636, 0, 0,
+	0, 0, 655, 0, 0, 0, 647, 600, 653, 0,
+	31, 0, 697, 687, 699, 701, 0, 27, 0, 693,
+	0, 680, 706, 507, 707, 475, 0, 480, 0, 0,
+	0, 483, 0, 680, 37, 54, 55, 56, 326, 329,
+	0, 300, 241, 241, 0, 0, 0, 0, 0, 291,
+	292, 294, 296, 315, 139, 123, 318, 124, 0, 0,
+	0, 152, 0, 0, 0, 143, 0, 0, 167, 0,
+	169, 0, 0, 242, 208, 209, 261, 210, 211, 212,
+	259, 260, 258, 0, 258, 0, 0, 0, 246, 0,
+	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
+	0, 356, 357, 337, 0, 338, 340, 341, 342, 0,
+	320, 336, 412, 413, 668, 456, 586, 529, 589, 624,
+	258, 628, 629, 632, 634, 635, 637, 591, 590, 592,
+	0, 0, 595, 0, 0, 0, 0, 0, 651, 0,
+	32, 0, 702, -2, 0, 0, 0, 44, 35, 0,
+	466, 467, 0, 0, 0, 502, 470, 36, 265, 0,
+	677, 303, 318, 310, 311, 0, 0, 318, 319, 320,
+	315, 297, 0, 0, 0, 136, 0, 141, 0, 176,
+	255, 150, 168, 170, 172, 214, 261, 240, 261, 249,
+	250, 0, 0, 0, 0, 0, 102, 103, 0, 85,
+	86, 87, 88, 89, 0, 0, 0, 0, 0, 321,
+	670, 0, 625, 626, 0, 0, 0, 0, 617, 599,
+	648, 0, 700, 0, -2, 0, 695, 694, 0, 476,
+	503, 504, 505, 465, 287, 266, 0, 268, 0, 283,
+	0, 0, 0, 0, 0, 0, 0, 0, 301, 302,
+	305, 0, 312, 313, 306, 0, 0, 321, 0, 0,
+	173, 135, 153, 0, 0, 177, 229, 230, 244, 247,
+	0, 0, 0, 90, 322, 0, 70, 76, 78, 79,
+	80, 0, 0, 0, 0, 26, 0, 0, 593, 594,
+	596, 597, 0, 0, 0, 0, 690, 27, 0, 468,
+	264, 0, 269, 0, 0, 0, 272, 0, 284, 274,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 131, 0, 0, 138, 142, 508, 0, 0,
+	92, 0, 0, 0, 77, 0, 96, 0, 366, 0,
+	0, 671, 669, 598, 0, 0, 0, 698, -2, 696,
+	288, 0, 270, 275, 273, 276, 285, 286, 277, 278,
+	279, 280, 281, 282, 318, 318, 0, 0, 132, 174,
+	137, 0, 0, 0, 0, 0, 0, 164, 0, 506,
+	0, 0, 0, 68, 0, 323, 91, 69, 334, 99,
+	365, 0, 0, 0, 618, 0, 621, 0, 267, 0,
+	307, 308, 0, 265, 0, 155, 0, 157, 158, 159,
+	160, 161, 162, 163, 0, 265, 0, 506, 265, 0,
+	339, 367, 0, 0, 619, 0, 271, 0, 287, 154,
+	156, 165, 0, 287, 0, 265, 62, 93, 0, 335,
+	0, 289, 0, 314, 0, 61, 509, 63, 0, 0,
+	0, 166, 0, 620, 0, 0, 0, 309, 368, 369,
 }
 
 var yyTok1 = [...]int{
@@ -4633,10 +4636,10 @@ yydefault:
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 205:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1322
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 2fa5970..00e0a3c 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1318,9 +1318,9 @@ time_type:
   {
     $$ = ColumnType{Type: string($1)}
   }
-| YEAR
+| YEAR length_opt
   {
-    $$ = ColumnType{Type: string($1)}
+    $$ = ColumnType{Type: string($1), Length: $2}
   }
 
 bool_type:
-- 
2.43.0


From 98278bbba39dfabcafab11ee0799309a1881116c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 58/84] fix: compare number defaults as numbers

The default 0 of a decimal(10,2), shown as 0.00, was changed every time, and
1.55 was not changed to 1.5.
---
 schema/generator.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ab886ca..d9d1c1e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -3,6 +3,7 @@ package schema
 
 import (
 	"fmt"
+	"math/big"
 	"log"
 	"reflect"
 	"sort"
@@ -1414,10 +1415,13 @@ func areSameValue(current, desired *Value) bool {
 			desiredRaw = "0"
 		}
 	}
-	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
-		// Round "0.00" to "0.0" for comparison with desired.
-		// Ideally we should do this seeing precision in a data type.
-		currentRaw = currentRaw[0:len(desiredRaw)]
+	if desired.valueType == ValueTypeFloat || (desired.valueType == ValueTypeInt && strings.Contains(currentRaw, ".")) {
+		// "0" and "0.0" can be shown as "0.00", depending on the precision of a data type.
+		currentNumber, currentOk := new(big.Rat).SetString(currentRaw)
+		desiredNumber, desiredOk := new(big.Rat).SetString(desiredRaw)
+		if currentOk && desiredOk {
+			return currentNumber.Cmp(desiredNumber) == 0
+		}
 	}
 	return currentRaw == desiredRaw
 }
-- 
2.43.0


From 9ee811860fbe4ca43511675e93148eb9b37a142a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 59/84] fix: know the other names of decimal, numeric and
 double

A column of such a type was changed every time.
---
 schema/generator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index d9d1c1e..d4e172a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -30,6 +30,14 @@ var (
 	}
 	mysqlDataTypeAliases = map[string]string{
 		"boolean": "tinyint",
+		"numeric": "decimal",
+		"real":    "double",
+
+		"double precision": "double",
+	}
+	postgresDataTypeAliases = map[string]string{
+		"decimal": "numeric",
+		"float":   "double precision",
 	}
 )
 
@@ -1486,6 +1494,11 @@ func (g *Generator) normalizeDataType(dataType string) string {
 		if ok {
 			dataType = alias
 		}
+	} else if g.mode == GeneratorModePostgres {
+		alias, ok = postgresDataTypeAliases[dataType]
+		if ok {
+			dataType = alias
+		}
 	}
 	return dataType
 }
-- 
2.43.0


From b27667f43921ba14383060356db0818a43ec99c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 60/84] fix: change a column's precision, scale and time zone

A length left out was taken for any length, a scale was not looked at, nor was
a time zone in Postgres, so that such a change was not made.
---
 schema/generator.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index d4e172a..1043ae6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -3,8 +3,8 @@ package schema
 
 import (
 	"fmt"
-	"math/big"
 	"log"
+	"math/big"
 	"reflect"
 	"sort"
 	"strings"
@@ -834,8 +834,11 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 func generateDataType(column Column) string {
 	suffix := ""
+	if column.timezone {
+		suffix += " WITH TIME ZONE"
+	}
 	if column.array {
-		suffix = "[]"
+		suffix += "[]"
 	}
 
 	if column.length != nil {
@@ -862,9 +865,6 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	if column.unsigned {
 		definition += "UNSIGNED "
 	}
-	if column.timezone {
-		definition += "WITH TIME ZONE "
-	}
 
 	// [CHARACTER SET] and [COLLATE] should be placed before [NOT NULL | NULL] on MySQL
 	if column.charset != "" {
@@ -1366,9 +1366,35 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
-		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		g.haveSameLength(current, desired) &&
+		(current.timezone == desired.timezone) &&
 		current.array == desired.array
-	// TODO: scale
+}
+
+func (g *Generator) haveSameLength(current Column, desired Column) bool {
+	length := func(value *Value, omitted int) int {
+		if value != nil {
+			return value.intVal
+		}
+		return omitted
+	}
+
+	currentLength, desiredLength := -1, -1 // no limit
+	switch typeName := g.normalizeDataType(desired.typeName); {
+	case g.mode == GeneratorModeMysql && (typeName == "datetime" || typeName == "timestamp" || typeName == "time"):
+		currentLength, desiredLength = 0, 0
+	case g.mode == GeneratorModeMysql && typeName == "decimal":
+		currentLength, desiredLength = 10, 10
+	case g.mode != GeneratorModeMssql && (typeName == "character" || typeName == "binary" || typeName == "bit"):
+		currentLength, desiredLength = 1, 1
+	case g.mode == GeneratorModePostgres || typeName == "float" || typeName == "double":
+	default:
+		if current.length == nil || desired.length == nil {
+			return true // detect change column only when both are set explicitly
+		}
+	}
+	return length(current.length, currentLength) == length(desired.length, desiredLength) &&
+		length(current.scale, 0) == length(desired.scale, 0)
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From 9f0c5b1e126d29695fbcbf260a44bdc3ad4c49cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 61/84] fix: allow columns named like date, status or level

Those names don't need quotes, but a CREATE TABLE with them was refused.
---
 sqlparser/parser.go | 6526 ++++++++++++++++++++++---------------------
 sqlparser/parser.y  |   32 +
 2 files changed, 3309 insertions(+), 3249 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index e471460..fd85de2 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -736,730 +736,818 @@ var yyExca = [...]int{
 	121, 104,
 	-2, 94,
 	-1, 36,
-	153, 414,
-	154, 414,
-	-2, 404,
+	153, 438,
+	154, 438,
+	-2, 428,
 	-1, 272,
-	109, 747,
-	-2, 743,
+	109, 771,
+	-2, 767,
 	-1, 273,
-	109, 748,
-	-2, 744,
+	109, 772,
+	-2, 768,
 	-1, 343,
-	80, 941,
+	80, 965,
 	-2, 58,
 	-1, 344,
-	80, 892,
+	80, 916,
 	-2, 59,
 	-1, 349,
-	80, 871,
-	-2, 714,
+	80, 895,
+	-2, 738,
 	-1, 351,
-	80, 915,
-	-2, 716,
-	-1, 652,
+	80, 939,
+	-2, 740,
+	-1, 676,
 	51, 41,
 	53, 41,
 	-2, 43,
-	-1, 797,
-	109, 750,
-	-2, 746,
-	-1, 1040,
-	5, 28,
-	-2, 549,
+	-1, 822,
+	109, 774,
+	-2, 770,
 	-1, 1065,
+	5, 28,
+	-2, 573,
+	-1, 1090,
 	5, 27,
-	-2, 688,
-	-1, 1166,
+	-2, 712,
+	-1, 1191,
 	5, 27,
 	-2, 64,
-	-1, 1383,
+	-1, 1408,
 	5, 28,
-	-2, 689,
-	-1, 1464,
+	-2, 713,
+	-1, 1489,
 	5, 27,
-	-2, 691,
-	-1, 1588,
+	-2, 715,
+	-1, 1613,
 	5, 28,
-	-2, 692,
+	-2, 716,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14825
+const yyLast = 14898
 
 var yyAct = [...]int{
-	273, 1540, 1513, 1477, 1474, 1578, 1068, 729, 302, 975,
-	579, 861, 1280, 1517, 1253, 498, 937, 464, 773, 1389,
-	1102, 1595, 879, 1281, 1254, 903, 276, 1168, 898, 646,
-	674, 1402, 970, 607, 1124, 89, 608, 270, 89, 1099,
-	578, 3, 1130, 1250, 644, 909, 251, 983, 245, 923,
-	902, 862, 277, 833, 1226, 830, 53, 348, 1084, 822,
-	1032, 66, 89, 89, 353, 735, 965, 1157, 1154, 353,
-	662, 952, 353, 353, 1073, 849, 799, 918, 89, 345,
-	89, 511, 517, 462, 661, 858, 89, 342, 250, 648,
-	330, 633, 246, 247, 248, 249, 329, 602, 523, 260,
-	339, 275, 337, 531, 593, 1138, 328, 936, 1014, 939,
-	52, 1659, 1306, 264, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 555, 1620, 555, 539,
-	335, 542, 465, 466, 1652, 1408, 279, 557, 558, 559,
-	560, 561, 562, 563, 1294, 540, 541, 538, 544, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1415, 1122, 555, 1033, 545, 86, 1293, 555, 1689, 936,
-	1693, 1636, 1586, 496, 1533, 544, 543, 553, 554, 546,
-	547, 548, 549, 550, 551, 552, 545, 938, 1544, 555,
-	832, 925, 1545, 338, 1158, 1159, 1680, 1645, 333, 976,
-	1624, 1635, 1585, 1373, 510, 932, 1245, 921, 477, 1609,
-	478, 1377, 475, 922, 1276, 1277, 485, 301, 548, 549,
-	550, 551, 552, 545, 89, 663, 555, 664, 353, 353,
-	353, 353, 1275, 353, 48, 26, 27, 892, 1137, 506,
-	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 893, 894, 555, 1430, 1429, 1140, 941,
-	1370, 510, 84, 80, 81, 82, 928, 353, 924, 933,
-	1134, 1092, 1136, 1135, 1091, 930, 929, 1093, 1453, 953,
-	764, 347, 853, 1366, 1326, 491, 468, 765, 1325, 472,
-	473, 1364, 1651, 943, 1653, 966, 244, 520, 544, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1515, 519, 555, 736, 1573, 1336, 1337, 1493, 570, 571,
-	572, 573, 574, 575, 576, 737, 738, 1563, 89, 75,
-	502, 503, 556, 1688, 556, 89, 89, 89, 1405, 465,
-	466, 353, 1678, 1579, 1204, 859, 1580, 353, 1461, 493,
-	1410, 495, 1610, 1409, 487, 1116, 345, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 556, 1341,
-	555, 57, 1201, 556, 1115, 1534, 1287, 70, 73, 492,
-	494, 1104, 926, 1667, 1342, 1350, 919, 1524, 927, 1109,
-	78, 1296, 71, 74, 1288, 556, 59, 60, 61, 62,
-	63, 920, 499, 500, 501, 480, 504, 470, 1107, 72,
-	68, 566, 77, 508, 78, 83, 1438, 743, 467, 1083,
-	595, 596, 597, 598, 599, 600, 601, 880, 882, 1545,
-	1644, 1082, 556, 953, 737, 738, 967, 1081, 934, 653,
-	935, 659, 1614, 1121, 1584, 347, 347, 347, 347, 946,
-	347, 727, 476, 931, 919, 1616, 223, 347, 628, 79,
-	1205, 556, 568, 569, 1403, 1404, 1406, 652, 89, 920,
-	1202, 333, 1200, 919, 1611, 89, 1684, 89, 353, 1538,
-	89, 1386, 1213, 89, 533, 1203, 1048, 89, 920, 353,
-	353, 353, 353, 353, 353, 353, 353, 680, 1026, 771,
-	676, 490, 881, 353, 353, 49, 535, 486, 89, 1320,
-	546, 547, 548, 549, 550, 551, 552, 545, 556, 768,
-	555, 900, 899, 353, 530, 1009, 1556, 89, 1555, 1044,
-	69, 1043, 479, 353, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 752, 1554, 555, 800, 529, 528,
-	1553, 796, 1552, 806, 529, 528, 529, 528, 347, 1247,
-	1321, 1249, 774, 775, 667, 530, 776, 804, 805, 803,
-	1551, 530, 1209, 530, 1550, 798, 556, 353, 807, 808,
-	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 797, 850, 750, 528, 1548, 728, 1612,
-	1613, 1615, 1617, 1618, 1010, 739, 1333, 740, 529, 528,
-	744, 1071, 530, 747, 665, 482, 483, 484, 850, 469,
-	1055, 778, 837, 1101, 732, 530, 1112, 1495, 89, 521,
-	1491, 89, 89, 89, 89, 89, 793, 1492, 766, 842,
-	845, 1596, 525, 89, 795, 851, 89, 1670, 1208, 1101,
-	89, 742, 1101, 76, 825, 89, 89, 785, 1100, 353,
-	1597, 1646, 753, 754, 755, 756, 757, 758, 759, 760,
-	827, 828, 353, 1111, 345, 801, 761, 762, 1669, 855,
-	1101, 50, 863, 789, 791, 792, 837, 904, 847, 790,
-	471, 802, 1423, 474, 1422, 347, 1141, 509, 1141, 887,
-	1023, 1024, 1025, 1647, 1478, 1650, 347, 347, 347, 347,
-	347, 347, 347, 347, 327, 1649, 1648, 1480, 1478, 1598,
-	347, 347, 865, 866, 770, 868, 556, 864, 353, 1594,
-	867, 1480, 353, 876, 353, 89, 1503, 89, 885, 884,
-	780, 1432, 89, 1431, 89, 890, 889, 89, 353, 1302,
-	533, 1163, 556, 347, 1161, 1141, 907, 972, 860, 769,
-	1045, 1549, 1460, 954, 955, 956, 957, 333, 333, 333,
-	333, 333, 1427, 838, 839, 1352, 529, 528, 823, 846,
-	824, 510, 333, 1155, 21, 1479, 888, 796, 968, 969,
-	1118, 333, 1546, 530, 829, 1571, 1697, 529, 528, 1479,
-	1468, 1686, 1399, 1679, 843, 843, 1399, 1658, 529, 528,
-	843, 1291, 800, 854, 530, 856, 857, 1481, 1482, 1483,
-	1484, 1485, 1486, 1487, 1290, 530, 1399, 1657, 510, 797,
-	1289, 1481, 1482, 1483, 1484, 1485, 1486, 1487, 1399, 1643,
-	255, 1110, 1029, 1030, 1031, 1571, 1642, 843, 1639, 1638,
-	1631, 510, 1399, 1628, 1566, 1015, 1094, 978, 1016, 292,
-	291, 294, 295, 296, 297, 982, 826, 987, 293, 298,
-	1468, 1576, 1004, 749, 1005, 748, 347, 1006, 1399, 1567,
-	1028, 1468, 1501, 1565, 353, 1468, 510, 89, 733, 347,
-	1468, 1469, 1086, 731, 1088, 1399, 1398, 1272, 510, 1065,
-	1385, 510, 1509, 353, 488, 979, 481, 981, 463, 635,
-	638, 639, 640, 636, 353, 637, 641, 1508, 904, 1074,
-	1075, 1007, 1504, 1069, 1054, 353, 463, 23, 1096, 1329,
-	1328, 1087, 1323, 1324, 89, 1323, 1322, 1038, 510, 1572,
-	801, 1571, 1078, 1424, 1476, 973, 630, 510, 656, 347,
-	1063, 347, 1417, 1064, 835, 510, 672, 671, 1543, 1313,
-	1216, 1251, 1089, 1132, 1069, 347, 835, 1070, 1070, 1381,
-	1050, 1117, 1047, 50, 1022, 54, 630, 353, 23, 629,
-	886, 1148, 655, 1150, 1151, 1152, 1153, 23, 657, 347,
-	655, 919, 1169, 1105, 1106, 1108, 914, 1416, 913, 1332,
-	915, 916, 1038, 630, 1463, 917, 920, 353, 630, 1069,
-	89, 89, 1049, 1038, 1046, 1166, 1142, 1143, 89, 1145,
-	1146, 1147, 1037, 333, 50, 1434, 1433, 353, 1156, 1160,
-	1327, 1095, 891, 50, 1162, 257, 1038, 1174, 1052, 1126,
-	1127, 1128, 1218, 658, 772, 50, 1690, 1131, 1129, 299,
-	300, 1175, 1656, 1173, 635, 638, 639, 640, 636, 1181,
-	637, 641, 1633, 1569, 1242, 1568, 730, 353, 353, 1560,
-	1559, 1222, 1223, 1255, 1521, 1252, 1502, 1447, 943, 971,
-	1312, 50, 1311, 1219, 1240, 1241, 1309, 1243, 1244, 1299,
-	1220, 1266, 1225, 966, 1274, 1123, 353, 1098, 353, 353,
-	1239, 1085, 1164, 1165, 1238, 959, 797, 1257, 958, 1246,
-	65, 904, 1541, 904, 1074, 1075, 863, 1435, 1251, 1172,
-	347, 1262, 863, 1279, 1077, 1261, 1260, 746, 1292, 1182,
-	1178, 1103, 734, 1183, 1180, 1179, 507, 942, 74, 873,
-	871, 1080, 1113, 1273, 874, 872, 1278, 784, 1214, 1184,
-	1079, 875, 1132, 639, 640, 1177, 870, 1297, 869, 1664,
-	1303, 261, 262, 1295, 1634, 89, 353, 1191, 1212, 1011,
-	524, 1314, 1315, 89, 1317, 1318, 1319, 1662, 353, 1021,
-	1206, 512, 1020, 522, 1149, 670, 489, 353, 1301, 980,
-	1379, 1448, 513, 745, 347, 524, 1304, 774, 775, 89,
-	1445, 1126, 1127, 1128, 1300, 353, 1171, 974, 643, 1131,
-	1129, 299, 300, 1444, 353, 1019, 1316, 89, 777, 1133,
-	1137, 1339, 1354, 1018, 347, 1343, 258, 259, 1335, 1218,
-	1286, 252, 1192, 1654, 1345, 1527, 253, 1194, 1187, 1188,
-	54, 1195, 1190, 1189, 347, 1526, 1197, 1193, 1348, 1451,
-	1070, 1351, 1134, 526, 1136, 1135, 1558, 1196, 1557, 1357,
-	1535, 1355, 1114, 1186, 1362, 767, 347, 353, 56, 353,
-	353, 353, 89, 353, 1285, 1284, 834, 836, 58, 353,
-	1176, 843, 1519, 7, 1259, 1085, 1340, 843, 1392, 1393,
-	1394, 654, 852, 51, 904, 1330, 1380, 984, 985, 986,
-	353, 1395, 1, 1338, 1096, 1520, 6, 1516, 1388, 1518,
-	5, 1411, 1564, 347, 1120, 347, 1282, 1407, 1562, 1414,
-	1397, 1440, 67, 1441, 1442, 1443, 510, 1623, 1570, 1347,
-	1305, 1132, 1334, 353, 353, 1439, 1412, 1420, 1170, 1418,
-	680, 353, 878, 676, 1185, 1425, 977, 1167, 1169, 904,
-	992, 353, 1577, 333, 1591, 1475, 1227, 911, 901, 1437,
-	1436, 461, 64, 544, 543, 553, 554, 546, 547, 548,
-	549, 550, 551, 552, 545, 1547, 912, 555, 910, 908,
-	673, 1133, 1137, 1331, 1139, 940, 353, 353, 679, 1229,
-	1255, 677, 678, 675, 1426, 1344, 1428, 681, 231, 340,
-	353, 642, 303, 47, 1346, 666, 1462, 527, 1454, 1455,
-	353, 1456, 1457, 1458, 1134, 1199, 1136, 1135, 1473, 1489,
-	1198, 988, 1349, 1488, 1207, 1464, 763, 1008, 1498, 505,
-	1496, 347, 1452, 233, 353, 353, 89, 1505, 564, 353,
-	1017, 1090, 1490, 346, 1619, 1231, 1510, 1494, 353, 1236,
-	47, 1230, 1258, 516, 1525, 1506, 1228, 1507, 256, 1450,
-	1053, 590, 1234, 848, 334, 278, 788, 1522, 290, 353,
-	287, 289, 1255, 288, 779, 1232, 1233, 1062, 1536, 1542,
-	537, 268, 332, 626, 1390, 634, 1390, 1390, 1390, 632,
-	1396, 631, 1076, 1235, 1237, 266, 347, 1072, 331, 1215,
-	1376, 1532, 783, 25, 55, 263, 1537, 19, 18, 17,
-	20, 16, 15, 14, 29, 13, 12, 1390, 11, 1374,
-	10, 9, 353, 8, 1035, 4, 254, 22, 1036, 2,
-	1574, 0, 0, 0, 1575, 1040, 1041, 1042, 1582, 353,
-	0, 0, 353, 0, 1051, 0, 353, 1587, 1592, 1057,
-	347, 347, 1058, 1059, 1060, 1061, 0, 0, 1446, 0,
-	353, 353, 1606, 0, 0, 0, 1512, 0, 1449, 353,
-	353, 0, 353, 1607, 1599, 1600, 1601, 1602, 1603, 0,
-	353, 1621, 1622, 556, 1629, 0, 0, 1627, 863, 1604,
-	1605, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1466, 1467, 555, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1282, 0, 0,
-	0, 0, 0, 0, 0, 0, 1655, 1497, 0, 0,
-	497, 497, 497, 497, 353, 497, 0, 1661, 353, 1660,
-	0, 0, 497, 1666, 1640, 1641, 1663, 0, 1668, 0,
-	0, 1282, 1511, 0, 0, 89, 1514, 353, 0, 47,
-	1673, 0, 0, 1676, 1675, 1390, 0, 0, 89, 0,
-	1683, 0, 0, 0, 565, 1685, 1674, 567, 0, 0,
-	1687, 0, 0, 1125, 0, 353, 1539, 0, 1126, 1127,
-	1128, 353, 0, 1694, 0, 0, 1131, 1129, 299, 300,
-	1691, 0, 0, 0, 577, 0, 581, 582, 583, 584,
-	585, 586, 587, 588, 589, 0, 592, 594, 594, 594,
-	594, 594, 594, 594, 594, 0, 622, 623, 624, 625,
-	1695, 0, 0, 0, 0, 1224, 0, 645, 0, 1282,
-	0, 0, 0, 0, 0, 0, 0, 0, 514, 518,
-	0, 0, 0, 843, 0, 0, 1589, 0, 0, 1590,
-	0, 0, 0, 1593, 0, 536, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1514, 1282, 0,
-	0, 0, 1271, 0, 0, 0, 1282, 1282, 0, 1625,
-	0, 0, 0, 0, 0, 0, 0, 1632, 1682, 580,
-	0, 0, 0, 515, 0, 0, 0, 0, 591, 0,
-	0, 556, 0, 0, 0, 0, 0, 0, 0, 0,
-	944, 945, 947, 948, 949, 0, 950, 951, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 87, 0,
-	0, 243, 0, 960, 961, 962, 0, 963, 0, 964,
-	0, 1282, 0, 0, 0, 1665, 0, 0, 0, 0,
-	0, 0, 0, 267, 0, 87, 87, 0, 1133, 1137,
-	0, 0, 0, 0, 1390, 0, 0, 0, 0, 0,
-	497, 87, 0, 87, 0, 0, 0, 0, 0, 87,
-	0, 497, 497, 497, 497, 497, 497, 497, 497, 1371,
-	0, 1134, 347, 1136, 1135, 497, 497, 0, 1514, 0,
-	0, 0, 0, 0, 0, 0, 0, 1356, 0, 0,
-	0, 0, 0, 0, 1358, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1367, 1368, 1369, 0,
-	0, 1372, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1382, 1383, 1384, 0, 1387, 0,
-	0, 0, 0, 0, 0, 0, 1221, 0, 0, 0,
-	47, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 0, 581, 555, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
-	555, 0, 0, 0, 0, 1421, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
-	555, 0, 603, 0, 786, 787, 0, 87, 0, 0,
-	0, 0, 0, 334, 334, 334, 334, 334, 0, 1034,
-	0, 0, 0, 0, 0, 0, 0, 0, 645, 0,
-	883, 0, 0, 0, 0, 605, 0, 334, 0, 544,
-	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 0, 998, 555, 1459, 0, 0, 580, 0, 0,
-	840, 841, 0, 0, 1144, 997, 0, 0, 0, 0,
-	1470, 1471, 1472, 0, 0, 0, 610, 611, 612, 613,
-	614, 615, 616, 617, 618, 619, 229, 0, 0, 0,
-	0, 1500, 1002, 0, 0, 0, 0, 606, 0, 0,
-	0, 996, 0, 0, 0, 620, 604, 0, 0, 0,
-	239, 87, 609, 0, 497, 0, 497, 0, 87, 650,
-	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	497, 0, 1528, 1529, 1530, 1531, 0, 0, 0, 0,
-	0, 897, 0, 0, 0, 0, 0, 0, 0, 0,
-	993, 990, 991, 0, 989, 0, 0, 0, 0, 0,
-	0, 224, 0, 0, 0, 0, 0, 226, 0, 0,
-	0, 556, 0, 0, 232, 228, 0, 0, 0, 1027,
-	0, 0, 1000, 1003, 0, 621, 556, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 230, 0, 556, 234, 0, 0,
-	1583, 0, 0, 0, 0, 1588, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1608,
-	0, 1066, 1067, 0, 0, 1012, 1013, 995, 518, 0,
-	0, 87, 1308, 1310, 0, 1630, 0, 0, 87, 556,
-	87, 0, 0, 87, 0, 225, 87, 0, 0, 334,
-	751, 0, 0, 0, 0, 0, 0, 0, 994, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 227, 0, 235, 236, 237, 238, 242,
-	87, 1039, 0, 0, 241, 240, 0, 999, 0, 751,
-	0, 0, 0, 0, 0, 0, 1056, 0, 0, 0,
-	0, 0, 0, 1001, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1681, 0, 1359, 1360, 0, 1361, 0,
-	0, 0, 1363, 0, 1365, 0, 0, 47, 0, 0,
-	0, 267, 0, 0, 0, 0, 267, 267, 0, 0,
-	844, 844, 267, 1698, 1699, 0, 844, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 497,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1400, 1401, 0, 0, 0, 0, 267, 267, 267, 267,
-	0, 87, 0, 844, 87, 87, 87, 87, 87, 0,
-	0, 0, 0, 0, 0, 0, 877, 0, 0, 87,
-	0, 0, 0, 650, 0, 0, 0, 0, 87, 87,
-	0, 0, 0, 0, 0, 0, 0, 1256, 0, 47,
-	23, 24, 48, 26, 27, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1268, 1269, 1270, 0, 0, 42,
-	0, 0, 0, 28, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 37, 0, 0, 0, 50, 0, 0, 0,
-	1298, 0, 0, 0, 0, 0, 703, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1307, 0, 87, 0,
-	87, 0, 0, 0, 0, 87, 0, 87, 0, 0,
-	87, 1248, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1263, 1264, 0, 0,
-	1265, 0, 0, 1267, 0, 751, 30, 31, 33, 32,
-	35, 0, 0, 0, 0, 0, 0, 267, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	36, 43, 44, 688, 0, 45, 46, 34, 0, 0,
+	273, 754, 1538, 1502, 1499, 1603, 1000, 1565, 603, 1093,
+	1542, 886, 1305, 1278, 302, 1306, 1427, 962, 488, 798,
+	1127, 277, 1414, 904, 1279, 928, 276, 1193, 698, 670,
+	1275, 1149, 251, 934, 1008, 89, 995, 1620, 89, 668,
+	1155, 927, 948, 887, 1109, 522, 1251, 53, 1124, 245,
+	847, 858, 66, 1057, 520, 348, 760, 990, 1182, 602,
+	3, 1179, 89, 89, 353, 943, 686, 1098, 874, 353,
+	535, 541, 353, 353, 855, 923, 824, 883, 89, 462,
+	89, 685, 342, 657, 672, 329, 89, 704, 700, 1039,
+	626, 275, 339, 246, 247, 248, 249, 555, 260, 337,
+	697, 328, 547, 964, 1163, 52, 1684, 250, 617, 345,
+	1331, 264, 577, 578, 570, 571, 572, 573, 574, 575,
+	576, 569, 330, 961, 579, 569, 579, 1645, 579, 1433,
+	335, 1319, 977, 1677, 563, 270, 566, 489, 490, 857,
+	1440, 1718, 581, 582, 583, 584, 585, 586, 587, 1318,
+	564, 565, 562, 568, 567, 577, 578, 570, 571, 572,
+	573, 574, 575, 576, 569, 86, 1661, 579, 1558, 568,
+	567, 577, 578, 570, 571, 572, 573, 574, 575, 576,
+	569, 963, 1147, 579, 1714, 1611, 1570, 1183, 1184, 1705,
+	1569, 1001, 1649, 338, 1660, 1610, 1399, 1270, 1634, 1402,
+	279, 1670, 499, 1398, 534, 1301, 1302, 687, 501, 688,
+	502, 84, 80, 81, 82, 1300, 509, 301, 572, 573,
+	574, 575, 576, 569, 89, 1162, 579, 917, 353, 353,
+	353, 353, 789, 353, 48, 26, 27, 918, 919, 790,
+	353, 568, 567, 577, 578, 570, 571, 572, 573, 574,
+	575, 576, 569, 530, 1455, 579, 1454, 1159, 1117, 1161,
+	1160, 1116, 333, 1165, 1118, 1395, 534, 353, 568, 567,
+	577, 578, 570, 571, 572, 573, 574, 575, 576, 569,
+	966, 347, 579, 523, 524, 525, 492, 528, 1478, 496,
+	497, 1676, 978, 1678, 532, 878, 968, 1351, 1350, 991,
+	1391, 1389, 543, 568, 567, 577, 578, 570, 571, 572,
+	573, 574, 575, 576, 569, 1540, 544, 579, 244, 1598,
+	761, 1518, 489, 490, 762, 763, 1361, 1362, 89, 1588,
+	580, 57, 580, 1703, 580, 89, 89, 89, 526, 527,
+	1713, 353, 1604, 1229, 884, 1430, 1605, 353, 1635, 1486,
+	1366, 944, 1435, 534, 511, 1226, 59, 60, 61, 62,
+	63, 1375, 1434, 1141, 83, 1367, 945, 1140, 1312, 1559,
+	1129, 1692, 504, 580, 568, 567, 577, 578, 570, 571,
+	572, 573, 574, 575, 576, 569, 345, 1549, 579, 580,
+	568, 567, 577, 578, 570, 571, 572, 573, 574, 575,
+	576, 569, 1313, 494, 579, 78, 77, 1321, 78, 1134,
+	631, 632, 905, 907, 1463, 768, 594, 595, 596, 597,
+	598, 599, 600, 1058, 619, 620, 621, 622, 623, 624,
+	625, 1570, 580, 683, 1669, 491, 677, 1609, 1639, 1108,
+	992, 762, 763, 978, 1132, 347, 347, 347, 347, 1107,
+	347, 1641, 971, 1227, 1106, 1225, 752, 347, 652, 500,
+	223, 580, 79, 1230, 1146, 592, 593, 676, 1228, 1709,
+	1636, 1428, 1429, 1431, 944, 590, 570, 571, 572, 573,
+	574, 575, 576, 569, 557, 1563, 579, 906, 580, 945,
+	793, 1411, 89, 1238, 1073, 1051, 796, 559, 554, 89,
+	510, 89, 353, 1345, 89, 49, 1581, 89, 1034, 944,
+	1580, 89, 1579, 353, 353, 353, 353, 353, 353, 353,
+	353, 1578, 515, 580, 945, 925, 924, 353, 353, 503,
+	1577, 1576, 89, 553, 552, 333, 567, 577, 578, 570,
+	571, 572, 573, 574, 575, 576, 569, 353, 1575, 579,
+	554, 89, 1573, 1358, 1346, 75, 767, 353, 347, 552,
+	1096, 689, 1272, 1234, 691, 751, 777, 778, 779, 780,
+	781, 782, 783, 784, 785, 554, 801, 825, 799, 800,
+	875, 786, 787, 1126, 757, 533, 517, 1035, 519, 545,
+	1621, 875, 831, 1080, 580, 1637, 1638, 1640, 1642, 1643,
+	775, 353, 1517, 70, 73, 821, 829, 830, 828, 1622,
+	580, 549, 506, 507, 508, 822, 516, 518, 71, 74,
+	1520, 1516, 753, 1125, 553, 552, 1137, 1695, 1069, 764,
+	1068, 765, 867, 870, 769, 72, 68, 772, 876, 1233,
+	1671, 554, 1126, 1126, 803, 1126, 493, 553, 552, 820,
+	1070, 50, 89, 1694, 818, 89, 89, 89, 89, 89,
+	534, 827, 791, 1675, 554, 862, 76, 89, 631, 632,
+	89, 850, 1674, 1136, 89, 888, 553, 552, 1673, 89,
+	89, 810, 1672, 353, 852, 853, 1574, 1448, 814, 816,
+	817, 1166, 580, 554, 815, 1623, 353, 823, 553, 552,
+	832, 833, 834, 835, 836, 837, 838, 839, 840, 841,
+	842, 843, 844, 845, 846, 554, 872, 495, 912, 347,
+	498, 1619, 880, 1048, 1049, 1050, 1528, 327, 345, 862,
+	347, 347, 347, 347, 347, 347, 347, 347, 514, 1485,
+	889, 929, 1457, 892, 347, 347, 863, 864, 1456, 901,
+	1327, 1188, 871, 353, 910, 580, 69, 353, 909, 353,
+	89, 1186, 89, 826, 805, 914, 915, 89, 848, 89,
+	849, 1246, 89, 353, 557, 1166, 932, 347, 890, 891,
+	1452, 893, 885, 1377, 795, 997, 879, 1252, 881, 882,
+	1180, 568, 567, 577, 578, 570, 571, 572, 573, 574,
+	575, 576, 569, 993, 994, 579, 1143, 553, 552, 21,
+	913, 1004, 1447, 1006, 1274, 1571, 1166, 1316, 854, 794,
+	1254, 1596, 1722, 534, 554, 1493, 1711, 1032, 868, 868,
+	1424, 1704, 1424, 1683, 868, 1315, 553, 552, 1314, 1135,
+	1206, 1119, 821, 825, 1424, 1682, 1424, 1668, 979, 980,
+	981, 982, 822, 554, 1003, 333, 333, 333, 333, 333,
+	1596, 1667, 1664, 1663, 1591, 255, 1656, 534, 1590, 1040,
+	333, 868, 1041, 1424, 1653, 23, 1256, 1493, 1601, 333,
+	1261, 851, 1255, 1424, 1592, 1493, 1526, 1253, 1493, 534,
+	1007, 774, 1012, 1259, 1493, 1494, 1534, 1029, 1088, 1030,
+	347, 1089, 1031, 1424, 1423, 1053, 1257, 1258, 773, 353,
+	1207, 1203, 89, 347, 1208, 1205, 1204, 1297, 534, 74,
+	1111, 50, 1113, 758, 1260, 1262, 1410, 534, 353, 756,
+	1209, 1354, 1353, 1348, 1349, 1533, 1202, 1348, 1347, 353,
+	1063, 534, 1079, 1090, 1396, 654, 534, 1529, 1047, 680,
+	353, 1112, 512, 1121, 860, 534, 696, 695, 23, 89,
+	1103, 505, 1597, 1449, 1596, 1054, 1055, 1056, 1442, 1276,
+	998, 1338, 1094, 929, 347, 54, 347, 292, 291, 294,
+	295, 296, 297, 1114, 1488, 653, 293, 298, 1157, 681,
+	347, 679, 1095, 1095, 1094, 1241, 1062, 1075, 1072, 911,
+	860, 679, 353, 1406, 50, 1142, 1130, 1131, 1133, 654,
+	654, 580, 1077, 1063, 347, 23, 568, 567, 577, 578,
+	570, 571, 572, 573, 574, 575, 576, 569, 1441, 826,
+	579, 1357, 353, 654, 1094, 89, 89, 1063, 1352, 1074,
+	1071, 1459, 1458, 89, 1120, 1185, 1181, 1194, 916, 1063,
+	1187, 682, 353, 1173, 797, 1175, 1176, 1177, 1178, 1191,
+	266, 50, 967, 1199, 50, 257, 1715, 1200, 1681, 1198,
+	568, 567, 577, 578, 570, 571, 572, 573, 574, 575,
+	576, 569, 1658, 1594, 579, 1593, 1231, 1585, 1584, 1546,
+	1527, 1472, 353, 353, 968, 996, 1337, 1243, 1336, 1334,
+	1277, 1324, 1167, 1168, 1280, 1170, 1171, 1172, 1245, 1291,
+	888, 50, 333, 1189, 1190, 1250, 888, 1264, 991, 1267,
+	1263, 353, 1299, 353, 353, 1271, 1110, 1244, 1148, 822,
+	802, 1123, 1099, 1100, 1036, 984, 983, 1285, 1287, 65,
+	755, 1286, 1566, 1460, 1276, 347, 1197, 1102, 1304, 771,
+	759, 1282, 531, 898, 1317, 896, 1128, 1023, 899, 1298,
+	897, 900, 1303, 663, 664, 809, 929, 1138, 929, 1105,
+	1022, 1104, 895, 1239, 894, 261, 262, 1157, 1689, 548,
+	1322, 1320, 1328, 1659, 1237, 1687, 1046, 1045, 859, 861,
+	89, 353, 546, 1174, 1247, 1248, 694, 1027, 89, 513,
+	1326, 1473, 536, 353, 877, 1404, 1021, 1265, 1266, 1005,
+	1268, 1269, 353, 537, 659, 662, 663, 664, 660, 347,
+	661, 665, 799, 800, 89, 770, 1470, 1325, 1196, 999,
+	353, 667, 548, 1364, 258, 259, 580, 1044, 1469, 353,
+	1360, 1311, 89, 1339, 1340, 1043, 1342, 1343, 1344, 347,
+	1379, 1368, 252, 1679, 903, 1018, 1015, 1016, 1552, 1014,
+	1370, 253, 54, 1465, 1376, 1466, 1467, 1468, 1551, 347,
+	550, 1476, 1095, 1583, 1373, 1310, 1309, 1464, 1009, 1010,
+	1011, 1380, 1582, 1560, 1243, 1139, 792, 1025, 1028, 56,
+	580, 347, 353, 1387, 353, 353, 353, 89, 353, 1544,
+	7, 58, 1341, 1201, 353, 1365, 868, 678, 1405, 1284,
+	1110, 51, 868, 538, 542, 1, 1417, 1418, 1419, 1413,
+	1355, 1545, 6, 1543, 5, 353, 1420, 1432, 1363, 1121,
+	560, 1422, 1541, 1589, 1145, 1587, 67, 1436, 347, 1648,
+	347, 1307, 1595, 1330, 1359, 1195, 1210, 1439, 1002, 929,
+	1192, 1017, 1020, 1602, 1372, 1616, 1157, 1500, 353, 353,
+	1445, 1443, 936, 926, 604, 461, 353, 64, 1059, 1572,
+	1437, 464, 937, 615, 935, 933, 353, 1164, 965, 703,
+	701, 702, 1382, 1019, 1462, 1461, 699, 705, 568, 567,
+	577, 578, 570, 571, 572, 573, 574, 575, 576, 569,
+	231, 340, 579, 1194, 929, 666, 690, 551, 1356, 1224,
+	1223, 353, 353, 1013, 1232, 788, 1033, 1450, 529, 233,
+	1369, 1280, 1024, 588, 1042, 353, 1115, 303, 47, 1371,
+	346, 1487, 1644, 1283, 540, 353, 1550, 1060, 1026, 1475,
+	1513, 1061, 333, 1078, 1498, 1514, 614, 1374, 1065, 1066,
+	1067, 873, 278, 813, 1523, 1521, 347, 1076, 290, 353,
+	353, 89, 1082, 1530, 353, 1083, 1084, 1085, 1086, 1489,
+	287, 1535, 289, 353, 288, 47, 1515, 804, 1087, 561,
+	1451, 1519, 1453, 256, 268, 332, 650, 658, 656, 334,
+	655, 1101, 1097, 331, 353, 1547, 1240, 1401, 1557, 808,
+	25, 55, 1561, 1280, 1567, 263, 19, 18, 17, 1415,
+	20, 1415, 1415, 1415, 16, 1421, 15, 14, 1477, 29,
+	1503, 347, 13, 12, 11, 10, 9, 1531, 8, 1532,
+	4, 1479, 1480, 1505, 1481, 1482, 1483, 254, 22, 2,
+	0, 0, 1415, 0, 0, 0, 0, 353, 0, 0,
+	1562, 0, 1599, 0, 0, 0, 0, 0, 0, 1600,
+	0, 1607, 0, 0, 353, 0, 0, 353, 0, 0,
+	0, 353, 1612, 1617, 0, 347, 347, 0, 0, 0,
+	0, 0, 888, 1471, 0, 353, 353, 1631, 0, 0,
+	0, 1537, 0, 1474, 353, 353, 0, 353, 1632, 1629,
+	1630, 1504, 0, 1654, 0, 353, 1646, 1647, 580, 1652,
+	0, 0, 0, 811, 812, 1624, 1625, 1626, 1627, 1628,
+	659, 662, 663, 664, 660, 0, 661, 665, 1491, 1492,
+	1099, 1100, 0, 1506, 1507, 1508, 1509, 1510, 1511, 1512,
+	0, 0, 1307, 0, 0, 0, 0, 0, 1249, 0,
+	0, 0, 1522, 0, 1680, 521, 521, 521, 521, 353,
+	521, 1685, 1686, 353, 0, 0, 604, 521, 1691, 865,
+	866, 1688, 0, 1693, 0, 0, 1307, 1536, 1665, 1666,
+	89, 1539, 353, 0, 47, 1698, 0, 0, 1701, 0,
+	1415, 0, 1700, 89, 0, 1296, 0, 0, 0, 589,
+	0, 1708, 591, 0, 1699, 1712, 1710, 0, 0, 0,
+	353, 1564, 0, 0, 0, 0, 353, 0, 1719, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 601,
+	0, 605, 606, 607, 608, 609, 610, 611, 612, 613,
+	0, 616, 618, 618, 618, 618, 618, 618, 618, 618,
+	922, 646, 647, 648, 649, 1716, 0, 1151, 1152, 1153,
+	1501, 0, 669, 0, 1307, 1156, 1154, 299, 300, 969,
+	970, 972, 973, 974, 0, 975, 976, 0, 868, 0,
+	0, 1614, 0, 0, 1615, 0, 0, 0, 1618, 0,
+	0, 0, 985, 986, 987, 0, 988, 539, 989, 0,
+	0, 0, 1539, 1307, 961, 0, 0, 0, 0, 0,
+	627, 1307, 1307, 0, 1650, 0, 0, 0, 0, 0,
+	0, 0, 1657, 1707, 0, 0, 950, 0, 0, 0,
+	1381, 0, 87, 0, 0, 243, 0, 1383, 0, 0,
+	957, 0, 946, 629, 0, 0, 0, 0, 947, 1392,
+	1393, 1394, 0, 1720, 1397, 1037, 1038, 267, 542, 87,
+	87, 0, 0, 0, 0, 0, 0, 1407, 1408, 1409,
+	0, 1412, 0, 0, 0, 87, 1307, 87, 0, 0,
+	1690, 1503, 0, 87, 634, 635, 636, 637, 638, 639,
+	640, 641, 642, 643, 1505, 0, 0, 0, 0, 1415,
+	0, 953, 0, 949, 958, 630, 0, 0, 0, 0,
+	955, 954, 0, 644, 628, 0, 0, 0, 1446, 0,
+	633, 1064, 0, 0, 0, 0, 0, 347, 0, 521,
+	0, 0, 0, 1539, 0, 0, 1081, 1158, 1162, 0,
+	521, 521, 521, 521, 521, 521, 521, 521, 0, 0,
+	0, 0, 0, 1329, 521, 521, 0, 0, 1151, 1152,
+	1153, 0, 1504, 0, 0, 0, 1156, 1154, 299, 300,
+	1159, 0, 1161, 1160, 0, 0, 1150, 0, 0, 0,
+	0, 1151, 1152, 1153, 0, 0, 0, 1484, 0, 1156,
+	1154, 299, 300, 645, 1506, 1507, 1508, 1509, 1510, 1511,
+	1512, 0, 0, 1495, 1496, 1497, 0, 0, 0, 473,
+	0, 0, 0, 0, 0, 0, 0, 951, 0, 47,
+	0, 87, 0, 952, 1525, 0, 0, 477, 471, 0,
+	0, 0, 0, 605, 1169, 0, 0, 0, 0, 1216,
+	0, 0, 0, 0, 0, 0, 463, 0, 0, 0,
+	0, 0, 0, 0, 0, 466, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1553, 1554, 1555, 1556, 0,
+	0, 0, 0, 959, 0, 960, 0, 0, 0, 0,
+	0, 0, 334, 334, 334, 334, 334, 0, 956, 0,
+	0, 0, 0, 0, 0, 0, 0, 669, 0, 908,
+	0, 0, 0, 0, 1217, 0, 334, 0, 0, 1219,
+	1212, 1213, 485, 1220, 1215, 1214, 0, 0, 1222, 1218,
+	0, 1568, 0, 0, 0, 87, 0, 0, 0, 1221,
+	467, 0, 87, 674, 87, 1211, 0, 0, 1158, 1162,
+	0, 1273, 0, 1608, 479, 0, 0, 0, 1613, 465,
+	0, 0, 0, 0, 0, 0, 1288, 1289, 0, 0,
+	1290, 1158, 1162, 1292, 0, 0, 0, 478, 483, 0,
+	0, 1159, 1633, 1161, 1160, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 521, 0, 521, 0, 1655, 0,
+	481, 482, 468, 486, 1159, 0, 1161, 1160, 0, 0,
+	521, 0, 0, 0, 0, 0, 484, 480, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	474, 0, 1333, 1335, 23, 24, 48, 26, 27, 0,
+	0, 0, 0, 0, 0, 0, 0, 487, 0, 0,
+	0, 0, 0, 42, 0, 0, 0, 28, 472, 1052,
+	0, 476, 0, 470, 0, 0, 0, 0, 0, 0,
+	0, 0, 229, 0, 0, 0, 37, 0, 0, 0,
+	50, 0, 0, 0, 0, 0, 1706, 0, 0, 0,
+	0, 469, 0, 0, 0, 475, 239, 0, 0, 87,
+	0, 0, 0, 0, 0, 1378, 87, 0, 87, 0,
+	0, 87, 0, 0, 87, 0, 1723, 1724, 776, 0,
+	0, 1091, 1092, 0, 0, 1384, 1385, 0, 1386, 0,
+	0, 0, 1388, 0, 1390, 0, 0, 0, 0, 87,
+	30, 31, 33, 32, 35, 1403, 0, 224, 0, 334,
+	0, 0, 604, 226, 0, 0, 0, 0, 87, 0,
+	232, 228, 0, 0, 36, 43, 44, 776, 0, 45,
+	46, 34, 0, 0, 0, 0, 0, 0, 0, 0,
+	1425, 1426, 0, 0, 0, 0, 0, 0, 0, 0,
+	230, 0, 0, 234, 1438, 0, 0, 0, 0, 0,
+	0, 0, 0, 38, 39, 0, 40, 41, 0, 267,
+	0, 0, 0, 0, 267, 267, 0, 0, 869, 869,
+	267, 0, 0, 0, 869, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 47, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 225, 0, 0, 267, 267, 267, 267, 0, 87,
+	0, 869, 87, 87, 87, 87, 87, 0, 0, 521,
+	0, 0, 0, 0, 902, 0, 0, 87, 0, 0,
+	0, 674, 0, 0, 0, 0, 87, 87, 0, 227,
+	0, 235, 236, 237, 238, 242, 0, 0, 0, 0,
+	241, 240, 0, 0, 0, 0, 0, 49, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1281, 0, 47,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1293, 1294, 1295, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 87, 0, 87,
+	0, 0, 0, 0, 87, 0, 87, 0, 0, 87,
+	1323, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1586, 1332, 0, 0, 0,
+	0, 0, 0, 0, 776, 727, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 267, 0, 0, 0,
+	0, 0, 1606, 604, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 267, 0, 0, 0, 1651, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 334,
+	267, 0, 712, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 267, 704, 0, 0, 38,
-	39, 0, 40, 41, 0, 0, 0, 0, 1375, 0,
-	0, 267, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 610, 611, 612,
-	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
-	87, 722, 723, 724, 726, 725, 705, 706, 707, 711,
-	709, 708, 710, 682, 684, 1353, 620, 683, 689, 685,
-	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
-	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
-	717, 718, 719, 0, 703, 0, 1419, 1119, 0, 0,
-	0, 0, 0, 49, 0, 1378, 0, 0, 0, 0,
-	0, 0, 580, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1256, 0, 621, 1465, 0, 0,
-	0, 0, 0, 0, 1413, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 688, 0, 1210, 1211, 1499, 0, 0, 0, 0,
-	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 267, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 267, 0, 704, 0, 0, 0, 0, 0,
-	0, 1523, 751, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1256, 844, 47, 0,
-	0, 0, 0, 844, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 610, 611, 612, 613, 614,
-	615, 616, 617, 618, 619, 0, 720, 721, 0, 722,
-	723, 724, 726, 725, 705, 706, 707, 711, 709, 708,
-	710, 682, 684, 0, 620, 683, 689, 685, 686, 687,
-	701, 690, 691, 692, 693, 694, 695, 696, 697, 698,
-	699, 700, 702, 712, 713, 714, 715, 716, 717, 718,
-	719, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 87, 0,
-	0, 0, 0, 0, 0, 0, 87, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1637, 621, 1561, 0, 0, 0, 0,
-	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 1581, 580, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1626, 0,
-	0, 0, 0, 0, 0, 650, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1692, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1677, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1400, 0,
+	0, 0, 0, 0, 0, 728, 0, 0, 0, 87,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1702, 634, 635, 636, 637,
+	638, 639, 640, 641, 642, 643, 1144, 744, 745, 0,
+	746, 747, 748, 750, 749, 729, 730, 731, 735, 733,
+	732, 734, 706, 708, 0, 644, 707, 713, 709, 710,
+	711, 725, 714, 715, 716, 717, 718, 719, 720, 721,
+	722, 723, 724, 726, 736, 737, 738, 739, 740, 741,
+	742, 743, 0, 0, 0, 1444, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 1235, 1236, 1281, 0, 0, 1490, 0, 0,
+	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	267, 0, 0, 0, 0, 645, 0, 0, 0, 0,
+	0, 267, 0, 0, 0, 1524, 0, 0, 0, 0,
+	0, 776, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 869, 0, 0, 0,
+	0, 0, 869, 0, 0, 0, 0, 0, 0, 0,
+	0, 1548, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1281, 0, 47, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 556, 0, 0, 0, 0, 116, 0,
+	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 558, 0,
+	0, 0, 0, 0, 0, 105, 0, 87, 0, 0,
+	0, 553, 552, 0, 0, 87, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 554, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 449, 439, 87,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 905,
-	906, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 1097, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 844,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 1672, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 87, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 905, 906, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 1217, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
-	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
-	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
-	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 50, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
-	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
-	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
-	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
-	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
-	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
-	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
-	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
-	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
-	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
-	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
-	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
-	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
-	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
-	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
-	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 272,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
-	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
-	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 794, 0, 385, 0, 422, 0, 0, 0, 369,
-	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
-	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
-	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
-	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 87,
+	0, 0, 203, 1662, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 674, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 1717, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	170, 0, 0, 104, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 449, 439, 87, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 0, 0, 0, 352, 0, 930, 931,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 1122, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 869, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 1697, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	87, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 352, 0, 930, 931, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 1242, 0, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 50, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
+	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
+	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
+	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
+	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
+	423, 452, 395, 427, 453, 0, 0, 0, 272, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
+	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
+	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
+	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
+	819, 0, 385, 0, 422, 0, 0, 0, 369, 364,
+	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
+	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
+	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
+	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
+	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
+	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
+	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
+	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
+	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 272, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 0, 0, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 350, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 351, 349, 124, 173, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
+	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
+	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
+	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
+	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
+	423, 452, 395, 427, 453, 0, 0, 0, 352, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
+	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
+	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
+	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
+	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
+	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
+	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
+	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
+	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
+	684, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 350, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
+	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
+	351, 349, 124, 173, 128, 135, 164, 212, 428, 169,
+	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
+	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
+	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
+	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 341, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 350, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 351, 349,
+	344, 343, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 154, 104, 92, 0, 0, 274, 0, 0,
+	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
+	0, 0, 0, 0, 920, 0, 50, 0, 0, 272,
+	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
+	298, 299, 300, 921, 0, 0, 269, 285, 0, 312,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
+	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
+	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
 	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
 	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
 	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
 	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
 	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
 	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
-	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 428,
-	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
-	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
-	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 272, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
+	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
+	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 856, 170, 274, 322, 104, 0, 116, 271,
+	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 0, 272, 292, 291, 294,
+	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
+	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 265, 0,
+	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
+	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
+	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 534, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
 	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
 	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
 	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
 	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
 	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 351, 349, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
-	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
-	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
-	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
-	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
-	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
-	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
-	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
-	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
-	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
-	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
-	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
-	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
-	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
-	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
-	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
-	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
-	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
-	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
-	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
-	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
-	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
-	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
-	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
-	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 660, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
-	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 351, 349, 124, 173, 128, 135, 164, 212, 428,
-	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
-	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
-	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 341,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 350, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 351,
-	349, 344, 343, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 154, 104, 92, 0, 0, 274, 0,
-	0, 0, 116, 271, 0, 0, 130, 313, 133, 0,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
+	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 895, 0, 50, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
 	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 896, 0, 0, 269, 285, 0,
+	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
 	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
+	282, 283, 265, 0, 0, 0, 325, 0, 284, 0,
 	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
 	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
@@ -1478,16 +1566,16 @@ var yyAct = [...]int{
 	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
 	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
 	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
-	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
+	0, 125, 310, 91, 99, 132, 210, 211, 23, 163,
 	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 831, 170, 274, 322, 104, 0, 116,
+	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
 	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
 	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
 	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
 	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 265,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
 	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
 	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
@@ -1512,7 +1600,7 @@ var yyAct = [...]int{
 	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
 	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 510, 272, 292, 291, 294, 295, 296,
+	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
 	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
 	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1537,190 +1625,19 @@ var yyAct = [...]int{
 	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
 	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
 	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 274,
-	322, 104, 0, 116, 271, 0, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 265, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 23,
-	163, 118, 197, 0, 0, 0, 0, 0, 0, 0,
-	0, 154, 0, 92, 0, 170, 274, 322, 104, 0,
-	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
-	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
-	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
-	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
-	0, 0, 50, 0, 0, 272, 292, 291, 294, 295,
-	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
-	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
-	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
-	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
-	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
-	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
-	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 170,
-	116, 322, 104, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 0, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 1696, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 170, 116, 322, 104, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 0, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 0, 0, 555, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 532, 0, 0, 0, 170, 116,
-	556, 104, 0, 130, 0, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
-	0, 0, 529, 528, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 530,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 170, 116,
+	322, 104, 0, 130, 313, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
+	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
+	300, 0, 0, 0, 0, 285, 0, 312, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
+	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
+	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
 	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	0, 110, 0, 168, 155, 194, 1721, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
 	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
@@ -1733,557 +1650,647 @@ var yyAct = [...]int{
 	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
 	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
 	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
+	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 170, 116, 322, 104, 0, 130, 313, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
+	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
+	293, 298, 299, 300, 0, 0, 0, 0, 285, 0,
+	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
+	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
+	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
+	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 170, 116, 322, 104, 0, 130,
+	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 568,
+	567, 577, 578, 570, 571, 572, 573, 574, 575, 576,
+	569, 0, 0, 579, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 154,
+	0, 92, 0, 673, 0, 0, 0, 170, 116, 580,
+	104, 0, 130, 0, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 675, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 23, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
+	170, 0, 0, 104, 0, 116, 0, 0, 0, 130,
+	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 23, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 0,
-	0, 104, 0, 116, 0, 0, 0, 130, 0, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 781, 0, 0, 782, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 669, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 668, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 649, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 647, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1391, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 1671, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1283, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 534, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 741, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 627, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 336, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 170, 0, 0, 104, 116,
-	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 170, 0, 0,
+	104, 0, 116, 0, 0, 0, 130, 0, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 0, 806, 0, 0, 807, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 693, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 692, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 673, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 675, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	671, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	1416, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 1696, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	1308, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 675, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 85, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 558, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 272, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	766, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 651, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 170, 0, 0, 104,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 336, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 0, 170, 0, 0, 104, 116, 0,
+	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	85, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 272, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 727, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 712, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 728, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	170, 0, 0, 104, 0, 634, 635, 636, 637, 638,
+	639, 640, 641, 642, 643, 0, 744, 745, 0, 746,
+	747, 748, 750, 749, 729, 730, 731, 735, 733, 732,
+	734, 706, 708, 0, 644, 707, 713, 709, 710, 711,
+	725, 714, 715, 716, 717, 718, 719, 720, 721, 722,
+	723, 724, 726, 736, 737, 738, 739, 740, 741, 742,
+	743, 473, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 477,
+	471, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 463, 0,
+	0, 0, 0, 0, 0, 0, 0, 466, 0, 0,
+	0, 0, 0, 0, 645, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 944, 485, 0, 0, 0, 939, 0,
+	938, 0, 940, 941, 0, 0, 0, 942, 945, 0,
+	0, 0, 467, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 479, 0, 0, 0,
+	0, 465, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 478,
+	483, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 481, 482, 468, 486, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 484, 480,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 474, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 487,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	472, 0, 0, 476, 0, 470, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 469, 0, 0, 0, 475,
 }
 
 var yyPact = [...]int{
-	2464, -1000, -203, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2218, -1000, -208, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1225, 1263, -1000, -1000, -1000, -1000, -1000, -1000, 1058,
-	259, 291, 340, 144, 13672, 337, 2075, 14232, -1000, 119,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 981, -1000, -1000,
-	-1000, -1000, -1000, 1214, 1220, 1029, 1206, 1123, -1000, 7466,
-	267, 11986, 13392, 6312, -1000, 853, -175, 297, 13952, 283,
-	283, 13952, 13952, 283, -1000, -67, 333, 14232, -1000, 14232,
-	281, 851, 281, 281, 281, 14232, -1000, 398, -1000, -1000,
+	-1000, 1247, 1284, -1000, -1000, -1000, -1000, -1000, -1000, 1087,
+	485, 285, 343, 93, 13411, 341, 2231, 13971, -1000, 141,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1009, -1000, -1000,
+	-1000, -1000, -1000, 1235, 1245, 1059, 1214, 1137, -1000, 7485,
+	282, 11725, 13131, 6331, -1000, 1991, -170, 314, 13691, 279,
+	279, 13691, 13691, 279, -1000, -77, 340, 13971, -1000, 13971,
+	248, 906, 248, 248, 248, 13971, -1000, 391, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2297,20 +2304,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 14232, 849, 1157, 230, 4156, 4156, 4156,
-	4156, 177, 4156, -16, 1086, -1000, -1000, -1000, -1000, 4156,
+	-1000, -1000, -1000, 13971, 897, 1170, 467, 4175, 4175, 4175,
+	4175, 185, 4175, -2, 1102, -1000, -1000, -1000, -1000, 4175,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	774, 1162, 8040, 8040, 1225, -1000, 981, -1000, -1000, -1000,
-	1149, -1000, -1000, 579, 1242, -1000, 9172, 397, -1000, 8040,
-	57, 993, -1000, -1000, 993, -1000, -1000, 352, -1000, -1000,
-	8606, 8606, 8606, 8606, 8606, 8606, 8606, -1000, -1000, -1000,
+	769, 1183, 8059, 8059, 1247, -1000, 1009, -1000, -1000, -1000,
+	1158, -1000, -1000, 548, 1259, -1000, 2921, 388, -1000, 8059,
+	62, 1012, -1000, -1000, 1012, -1000, -1000, 355, -1000, -1000,
+	8625, 8625, 8625, 8625, 8625, 8625, 8625, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 993, -1000, 7753, 993, 993, 993, 993, 993, 993,
-	993, 993, 8040, 993, 993, 993, 993, 993, 993, 993,
-	993, 993, 1916, 993, 993, 993, 993, 13106, 950, 1014,
-	-1000, -1000, -1000, 1186, 10026, 10866, 14232, 937, -1000, 990,
-	6004, -36, -1000, -1000, -1000, 534, 10586, -1000, -1000, -1000,
-	1156, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1012, -1000, 7772, 1012, 1012, 1012, 1012, 1012, 1012,
+	1012, 1012, 8059, 1012, 1012, 1012, 1012, 1012, 1012, 1012,
+	1012, 1012, 1704, 1012, 1012, 1012, 1012, 12845, 956, 1174,
+	-1000, -1000, -1000, 1209, 9765, 10605, 13971, 938, -1000, 998,
+	6023, -54, -1000, -1000, -1000, 481, 10325, -1000, -1000, -1000,
+	1167, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2321,234 +2328,239 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 903, -1000, 2705, 331, -1000, -1000, 14232, 1015, 838,
-	552, 833, 1082, 263, 14232, -1000, 12826, 4156, 295, 14232,
-	1170, 1077, 14232, 820, 818, -1000, 5696, -1000, 4156, 4156,
-	4156, 4156, 4156, 4156, 4156, 4156, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4156, 4156, -1000, 31, -1000, 14232, -1000, -1000,
-	-1000, -1000, 1256, 429, 706, 390, 991, -1000, 538, 1214,
-	774, 1123, 10306, 1106, -1000, -1000, 14232, -1000, 8040, 8040,
-	617, -1000, 12546, -1000, -1000, 4464, 437, 8606, 629, 479,
-	8606, 8606, 8606, 8606, 8606, 8606, 8606, 8606, 8606, 8606,
-	8606, 8606, 8606, 8606, 8606, 723, 1916, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 811, -1000, 981, 803, 803,
-	21, 21, 21, 21, 21, 21, 8889, 6892, 774, 901,
-	486, 7753, 7466, 7466, 8040, 8040, 14512, 14512, 7466, 1174,
-	518, 486, 14512, -1000, 774, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 74, -1000, -1000, -1000, -1000, -1000,
+	-1000, 903, -1000, 14385, 14385, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7466, 7466, 7466, 7466, 200, 14232, -1000, 14512,
-	11986, 11986, 11986, 11986, 11986, -1000, 1118, 1116, -1000, 1100,
-	1099, 1111, 14232, -1000, 893, 10026, 379, 993, -1000, 12266,
-	-1000, -1000, 200, 929, 11986, 14232, -1000, -1000, 5388, 990,
-	-36, 979, -1000, -25, -11, 6605, 416, -1000, -1000, -1000,
-	-1000, 3540, 871, 141, -127, 15, -1000, -1000, -1000, -1000,
-	1026, -1000, 1026, 241, 1026, 1026, 1026, -1000, 1026, 1026,
-	69, 69, 69, 69, 69, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1056, 1053, -1000, 1026, 1026, 1026, -1000, 1026,
-	-1000, 1026, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1041, 243, 1041, 1027, 1027, -1000, -1000, 13952, 1185, -92,
-	802, 4156, 1166, 4156, 14232, 1289, 14232, -1000, -1000, -1000,
-	2057, 14232, -1000, 14232, -1000, -1000, 14232, 4156, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 336, -1000,
+	-1000, 13971, 1089, 874, 512, 868, 1100, 270, 13971, -1000,
+	12565, 4175, 293, 13971, 1202, 1099, 13971, 853, 836, -1000,
+	5715, -1000, 4175, 4175, 4175, 4175, 4175, 4175, 4175, 4175,
+	-1000, -1000, -1000, -1000, -1000, -1000, 4175, 4175, -1000, -17,
+	-1000, 13971, -1000, -1000, -1000, -1000, 1277, 400, 766, 387,
+	1001, -1000, 554, 1235, 769, 1137, 10045, 1124, -1000, -1000,
+	13971, -1000, 8059, 8059, 622, -1000, 12285, -1000, -1000, 4483,
+	411, 8625, 599, 518, 8625, 8625, 8625, 8625, 8625, 8625,
+	8625, 8625, 8625, 8625, 8625, 8625, 8625, 8625, 8625, 713,
+	1704, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 826,
+	-1000, 1009, 921, 921, 21, 21, 21, 21, 21, 21,
+	8908, 6911, 769, 901, 463, 7772, 7485, 7485, 8059, 8059,
+	14251, 14251, 7485, 1211, 504, 463, 14251, -1000, 769, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 87, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 514, -1000, -1000, -1000, -1000, 1133, 8040,
-	8040, 5080, 8040, -1000, -1000, -1000, 1162, -1000, 1174, 1204,
-	-1000, 1150, 1147, 7466, -1000, -1000, 437, 525, -1000, -1000,
-	634, -1000, -1000, -1000, -1000, 389, 993, -1000, 1915, -1000,
-	-1000, -1000, -1000, 629, 8606, 8606, 8606, 23, 1915, 1968,
-	441, 265, 21, 121, 121, 62, 62, 62, 62, 62,
-	415, 415, -1000, -1000, -1000, -1000, 774, -1000, -1000, -1000,
-	774, 7466, 983, -1000, -1000, 8040, -1000, 774, 884, 884,
-	478, 738, 961, -1000, 377, 959, 884, 7466, 542, -1000,
-	8040, 774, -1000, -1000, 884, 774, 884, 884, 921, 993,
-	-1000, 956, -1000, 531, 1014, 1064, 1074, 869, -1000, -1000,
-	-1000, -1000, 1110, -1000, 1101, -1000, -1000, -1000, -1000, -1000,
-	317, 311, 299, 13952, -1000, 1238, 11986, 955, -1000, -1000,
-	979, -36, 8, -1000, -1000, -1000, -1000, 486, -1000, -1000,
-	801, 978, 3232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1045, 608, 13952, 246, 266, 353, 334, 786, -1000,
-	-1000, -1000, 607, -1000, 13952, 1253, -1000, -1000, 239, -1000,
-	220, 551, 733, 14232, 145, 1043, 1631, -1000, -210, -1000,
-	13, -1000, -1000, 697, 69, 69, 1026, 69, 69, 69,
-	-1000, -1000, 416, 1155, 416, 416, 416, 416, 726, 726,
-	-97, -97, -1000, -1000, -1000, -1000, 696, 1041, -1000, -1000,
-	-1000, 693, -1000, 1052, 981, -1000, 4772, -1000, -1000, -1000,
-	-1000, -1000, 1184, 1069, -1000, -1000, -1000, 154, -1000, 1004,
-	1112, 350, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 199, 343, -1000, 4156, -1000, 560, 14232,
-	14232, 1131, 486, 486, 373, -1000, -1000, 14232, -1000, -1000,
-	-1000, -1000, 949, -1000, -1000, -1000, 3848, 7466, -1000, 23,
-	1915, 1895, -1000, 8606, 8606, -1000, -1000, 884, 7466, 486,
-	-1000, -1000, -1000, 1250, 723, 1250, 8606, 8606, 5080, 8606,
-	8606, -82, 960, 480, -1000, 8040, 484, -1000, -1000, -1000,
-	-1000, -1000, 1068, 14512, 993, -1000, 9739, 13952, 1225, 14512,
-	8040, 8040, -1000, -1000, 8040, 1039, -1000, 8040, -1000, -1000,
-	-1000, 993, 993, 993, 844, -1000, 1225, 955, -1000, -1000,
-	-1000, -31, -53, -1000, -1000, 3540, -1000, 3540, 11706, -1000,
-	1265, 1211, 245, 269, -1000, 775, 769, -1000, 756, -1000,
-	32, -1000, -165, 79, 0, -1000, -1000, 993, -1000, 1037,
-	1182, -1000, 1160, 691, -1000, 1144, -199, -1000, -1000, -1000,
-	-1000, -1000, -1000, 993, 1034, 1030, -1000, 1028, -1000, -1000,
-	-1000, 905, 416, 416, 69, 416, 416, 416, -1000, 454,
-	-1000, -1000, -1000, -1000, 882, -1000, 879, -1000, 89, 85,
-	-1000, 977, -1000, 876, 14232, 13952, -1000, 946, -1000, 526,
-	1209, 156, 14232, 1289, -1000, 249, -1000, 13952, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 13952, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 14232, -1000,
-	-1000, -1000, -1000, -1000, 13952, 258, -1000, -1000, 718, 8040,
-	-1000, -1000, -1000, 4772, -1000, 1238, 11986, -1000, -1000, 774,
-	-1000, 8606, 1915, 1915, -1000, -1000, 774, 1026, 1026, -1000,
-	1026, 1027, -1000, -1000, 1026, 105, 1026, 97, 774, 774,
-	207, 1880, -1000, 150, 1500, 993, -74, -1000, 486, 8040,
-	-1000, 1163, 911, 916, -1000, -1000, 7179, 774, 847, 372,
-	844, 1214, -1000, 486, 486, 486, 11146, 486, 11146, 11146,
-	11146, 9452, 13952, 1214, -1000, -1000, -1000, -1000, 3232, -1000,
-	842, -1000, 1026, 1026, 309, 309, -174, 218, 215, -1000,
-	-1000, -1000, -1000, -175, -1000, -1000, 551, -1000, 8040, 11146,
-	-139, -1000, 944, 898, 982, -1000, 2497, 774, -1000, 640,
-	-1000, 638, 889, -1000, -1000, -1000, 416, -1000, -1000, -1000,
-	-1000, -1000, 69, 715, 69, 11, 10, 685, -1000, 683,
-	974, 1067, 4772, 3540, 294, 1315, -1000, -1000, 1194, 1178,
-	13952, -1000, -1000, -1000, 1025, -1000, -1000, -1000, -1000, 1165,
-	13952, -1000, -1000, 486, 1236, 923, -1000, 1915, -1000, -1000,
-	223, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	8606, 8606, -1000, 8606, 8606, 8606, 774, 705, 486, 213,
-	-1000, 993, -1000, -1000, 972, 13952, 13952, -1000, -1000, 837,
-	-1000, -1000, 832, 832, 832, 379, -1000, -1000, 653, 11706,
-	1173, -1000, 580, -1000, -1000, 571, 159, 577, -1000, 13952,
-	-175, -1000, 993, 727, 828, 1024, 678, -1000, 868, -1000,
-	-127, -1000, -1000, -1000, -1000, -1000, 416, -1000, 416, -1000,
-	-1000, 863, 848, 11706, 13952, 14232, -1000, -1000, 13952, -1000,
-	-1000, -1000, -1000, -1000, 137, 226, 1022, 11146, 993, 262,
-	1231, 1219, -1000, -1000, 1272, 1272, 1272, 1272, 84, -1000,
-	-1000, 1251, -1000, 993, -1000, 981, 370, -1000, 13952, -1000,
-	-1000, -1000, -1000, -1000, 1062, 667, 136, -1000, 737, 517,
-	704, 494, 490, 472, 470, 465, 448, 446, -1000, -1000,
-	-1000, 1249, -1000, -1000, -1000, 1246, 1018, -1000, 1017, 8040,
-	170, -1000, -1000, 829, 800, -1000, -1000, -1000, -1000, -1000,
-	825, 1013, 1011, 888, -1000, 140, 226, -1000, -1000, -1000,
-	-1000, 11706, 817, 198, 211, -1000, 8040, 8040, -1000, -1000,
-	-1000, -1000, 774, 155, -122, 14512, 916, 774, 13952, -1000,
-	-1000, 13952, -1000, -101, 667, 13952, -1000, 671, -1000, -1000,
-	591, 661, 591, 591, 591, 591, 591, 309, 309, 13952,
-	11706, 727, -1000, -77, 298, -1000, -1000, -183, 11706, 11706,
-	-91, 13952, 8040, 226, -1000, 799, 1015, 797, -1000, 13952,
-	1010, 486, 913, -1000, 1127, -89, -124, 870, -1000, -1000,
-	993, 795, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 551, 551, 792, 785, -1000, -1000,
-	-1000, 139, 645, 658, 657, 647, -10, -1000, 1217, 1238,
-	1000, 773, 753, -1000, -201, -1000, 486, -1000, -1000, -92,
-	-1000, 198, 1145, 11706, -1000, 1122, -1000, 13952, -1000, 667,
-	-1000, -1000, 255, 653, 620, -1000, 589, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 11426, 653, 11146, 1238, 653, 8040,
-	-1000, -1000, 195, 749, -95, 774, -1000, 14232, 1062, -1000,
-	-1000, -1000, 367, 1062, 747, 653, -1000, 486, 185, -1000,
-	-126, -1000, 994, -1000, 4772, -1000, -1000, -1000, 993, -125,
-	13952, -1000, 8323, -1000, 742, 1272, 774, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 7485, 7485, 7485, 7485,
+	199, 13971, -1000, 14251, 11725, 11725, 11725, 11725, 11725, -1000,
+	1134, 1132, -1000, 1115, 1113, 1121, 13971, -1000, 892, 9765,
+	364, 1012, -1000, 12005, -1000, -1000, 199, 948, 11725, 13971,
+	-1000, -1000, 5407, 998, -54, 995, -1000, -35, -27, 6624,
+	420, -1000, -1000, -1000, -1000, 3559, 14603, 1776, -133, 36,
+	-1000, -1000, -1000, -1000, 1042, -1000, 1042, 244, 1042, 1042,
+	1042, -1000, 1042, 1042, 82, 82, 82, 82, 82, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 1084, 1083, -1000, 1042,
+	1042, 1042, -1000, 1042, -1000, 1042, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 1066, 247, 1066, 1043, 1043, -1000,
+	-1000, 1776, 13691, 1207, -100, 799, 4175, 1186, 4175, 13971,
+	1270, 13971, -1000, -1000, -1000, 1142, 13971, -1000, 13971, -1000,
+	-1000, 13971, 4175, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 497, -1000,
+	-1000, -1000, -1000, 1098, 8059, 8059, 5099, 8059, -1000, -1000,
+	-1000, 1183, -1000, 1211, 1226, -1000, 1155, 1154, 7485, -1000,
+	-1000, 411, 488, -1000, -1000, 657, -1000, -1000, -1000, -1000,
+	386, 1012, -1000, 979, -1000, -1000, -1000, -1000, 599, 8625,
+	8625, 8625, 283, 979, 1297, 19, 444, 21, 121, 121,
+	23, 23, 23, 23, 23, 381, 381, -1000, -1000, -1000,
+	-1000, 769, -1000, -1000, -1000, 769, 7485, 996, -1000, -1000,
+	8059, -1000, 769, 887, 887, 577, 628, 987, -1000, 385,
+	986, 887, 7485, 515, -1000, 8059, 769, -1000, -1000, 887,
+	769, 887, 887, 869, 1012, -1000, 981, -1000, 480, 1174,
+	1082, 1097, 1580, -1000, -1000, -1000, -1000, 1131, -1000, 1129,
+	-1000, -1000, -1000, -1000, -1000, 334, 329, 319, 13691, -1000,
+	1260, 11725, 980, -1000, -1000, 995, -54, -5, -1000, -1000,
+	-1000, -1000, 463, -1000, -1000, 786, 991, 3251, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 1079, 573, 13691, 235,
+	231, 389, 354, 784, -1000, -1000, -1000, 607, -1000, 13691,
+	1276, -1000, -1000, 232, -1000, 228, 511, 749, 13971, 166,
+	1076, 1924, -1000, -211, -1000, 18, -1000, -1000, 717, 82,
+	82, 1042, 82, 82, 82, -1000, -1000, 420, 1164, 420,
+	420, 420, 420, 733, 733, -104, -104, -1000, -1000, -1000,
+	-1000, 703, 1066, -1000, -1000, -1000, 693, -1000, 1063, 1009,
+	-1000, 4791, -1000, -1000, -1000, -1000, -1000, 1206, 1096, -1000,
+	-1000, -1000, 153, -1000, 785, 1984, 333, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 198, 346,
+	-1000, 4175, -1000, 551, 13971, 13971, 1147, 463, 463, 384,
+	-1000, -1000, 13971, -1000, -1000, -1000, -1000, 984, -1000, -1000,
+	-1000, 3867, 7485, -1000, 283, 979, 700, -1000, 8625, 8625,
+	-1000, -1000, 887, 7485, 463, -1000, -1000, -1000, 681, 713,
+	681, 8625, 8625, 5099, 8625, 8625, -91, 960, 483, -1000,
+	8059, 737, -1000, -1000, -1000, -1000, -1000, 1094, 14251, 1012,
+	-1000, 9478, 13691, 1247, 14251, 8059, 8059, -1000, -1000, 8059,
+	1057, -1000, 8059, -1000, -1000, -1000, 1012, 1012, 1012, 864,
+	-1000, 1247, 980, -1000, -1000, -1000, -48, -62, -1000, -1000,
+	3559, -1000, 3559, 11445, -1000, 1266, 1222, 237, 277, -1000,
+	783, 780, -1000, 762, -1000, 15, -1000, -178, 95, -13,
+	-1000, -1000, 1012, -1000, 1049, 1205, -1000, 1172, 692, -1000,
+	1901, -201, -1000, -1000, -1000, -1000, -1000, -1000, 1012, 1047,
+	1046, -1000, 1044, -1000, -1000, -1000, 917, 420, 420, 82,
+	420, 420, 420, -1000, 448, -1000, -1000, -1000, -1000, 884,
+	-1000, 880, -1000, 99, 98, -1000, 985, -1000, 878, 13971,
+	13691, -1000, 978, -1000, 473, 1221, 167, 13971, 1270, -1000,
+	230, -1000, 13691, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 13691, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 13971, -1000, -1000, -1000, -1000, -1000, 13691,
+	234, -1000, -1000, 726, 8059, -1000, -1000, -1000, 4791, -1000,
+	1260, 11725, -1000, -1000, 769, -1000, 8625, 979, 979, -1000,
+	-1000, 769, 1042, 1042, -1000, 1042, 1043, -1000, -1000, 1042,
+	115, 1042, 114, 769, 769, 212, 925, -1000, 150, 177,
+	1012, -86, -1000, 463, 8059, -1000, 1178, 919, 950, -1000,
+	-1000, 7198, 769, 873, 382, 864, 1235, -1000, 463, 463,
+	463, 10885, 463, 10885, 10885, 10885, 9191, 13691, 1235, -1000,
+	-1000, -1000, -1000, 3251, -1000, 850, -1000, 1042, 1042, 316,
+	316, -180, 227, 217, -1000, -1000, -1000, -1000, -170, -1000,
+	-1000, 511, -1000, 8059, 10885, -159, -1000, 975, 914, 1700,
+	-1000, 2566, 769, -1000, 758, -1000, 633, 909, -1000, -1000,
+	-1000, 420, -1000, -1000, -1000, -1000, -1000, 82, 723, 82,
+	10, 8, 690, -1000, 684, 990, 1093, 4791, 3559, 292,
+	1257, -1000, -1000, 1219, 1204, 13691, -1000, -1000, -1000, 1039,
+	-1000, -1000, -1000, -1000, 1175, 13691, -1000, -1000, 463, 1258,
+	957, -1000, 979, -1000, -1000, 233, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 8625, 8625, -1000, 8625, 8625,
+	8625, 769, 682, 463, 214, -1000, 1012, -1000, -1000, 952,
+	13691, 13691, -1000, -1000, 841, -1000, -1000, 835, 835, 835,
+	364, -1000, -1000, 1469, 11445, 1198, -1000, 571, -1000, -1000,
+	536, 163, 570, -1000, 13691, -170, -1000, 1012, 606, 832,
+	1038, 668, -1000, 893, -1000, -133, -1000, -1000, -1000, -1000,
+	-1000, 420, -1000, 420, -1000, -1000, 881, 842, 11445, 13691,
+	13971, -1000, -1000, 13691, -1000, -1000, -1000, -1000, -1000, 142,
+	226, 1037, 10885, 1012, 262, 1254, 1242, -1000, -1000, 299,
+	299, 299, 299, 78, -1000, -1000, 1274, -1000, 1012, -1000,
+	1009, 376, -1000, 13691, -1000, -1000, -1000, -1000, -1000, 1092,
+	1830, 138, -1000, 760, 472, 629, 468, 451, 450, 441,
+	432, 430, 426, -1000, -1000, -1000, 1273, -1000, -1000, -1000,
+	1263, 1036, -1000, 1035, 8059, 172, -1000, -1000, 814, 810,
+	-1000, -1000, -1000, -1000, -1000, 830, 1033, 1031, 911, -1000,
+	145, 226, -1000, -1000, -1000, -1000, 11445, 824, 197, 211,
+	-1000, 8059, 8059, -1000, -1000, -1000, -1000, 769, 148, -109,
+	14251, 950, 769, 13691, -1000, -1000, 13691, -1000, -107, 1830,
+	13691, -1000, 663, -1000, -1000, 540, 637, 540, 540, 540,
+	540, 540, 316, 316, 13691, 11445, 606, -1000, -88, 294,
+	-1000, -1000, -183, 11445, 11445, -99, 13691, 8059, 226, -1000,
+	820, 1089, 813, -1000, 13691, 1030, 463, 947, -1000, 1146,
+	-96, -129, 941, -1000, -1000, 1012, 809, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 511,
+	511, 807, 793, -1000, -1000, -1000, 143, 624, 620, 614,
+	605, -11, -1000, 1237, 1260, 1016, 791, 779, -1000, -206,
+	-1000, 463, -1000, -1000, -100, -1000, 197, 1153, 11445, -1000,
+	1141, -1000, 13691, -1000, 1830, -1000, -1000, 243, 1469, 595,
+	-1000, 569, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 11165,
+	1469, 10885, 1260, 1469, 8059, -1000, -1000, 186, 777, -102,
+	769, -1000, 13971, 1092, -1000, -1000, -1000, 360, 1092, 772,
+	1469, -1000, 463, 192, -1000, -110, -1000, 1014, -1000, 4791,
+	-1000, -1000, -1000, 1012, -154, 13691, -1000, 8342, -1000, 768,
+	299, 769, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1529, 40, 784, 1527, 1526, 1525, 1309, 1305, 1282,
-	1523, 1521, 1520, 1518, 1516, 1515, 1514, 1513, 1512, 1511,
-	1510, 1509, 1508, 1507, 371, 1505, 1504, 1503, 98, 1502,
-	99, 1501, 1500, 60, 190, 55, 53, 1495, 1499, 44,
-	96, 90, 1498, 74, 1497, 1492, 102, 1491, 91, 1489,
-	1485, 130, 1483, 1482, 22, 6, 1481, 26, 1480, 1477,
-	101, 37, 1474, 1473, 1471, 1470, 1468, 1466, 76, 10,
-	14, 8, 24, 1465, 136, 52, 1463, 75, 1461, 1460,
-	1459, 1454, 56, 1453, 82, 18, 46, 81, 1452, 19,
-	1444, 85, 58, 43, 11, 100, 84, 1443, 51, 87,
-	70, 1441, 1440, 653, 1438, 1433, 1429, 1427, 1426, 1424,
-	532, 619, 1421, 1420, 1415, 57, 0, 217, 15, 103,
-	1407, 61, 1405, 1803, 108, 89, 29, 1401, 48, 173,
-	59, 1399, 1398, 54, 97, 30, 36, 33, 1397, 1393,
-	1392, 1391, 1388, 1137, 42, 71, 28, 1385, 1384, 16,
-	67, 66, 32, 68, 83, 1380, 1379, 1378, 45, 1376,
-	31, 20, 2, 77, 1375, 1362, 1361, 1358, 50, 25,
-	1357, 23, 12, 1, 4, 3, 1355, 1354, 1352, 5,
-	1350, 27, 1347, 9, 1346, 7, 1344, 1338, 1332, 1330,
-	1328, 1327, 1322, 1318, 1314, 1312, 39, 17, 49, 34,
-	21, 65, 47, 1307, 13, 1302, 1293, 1402, 697, 1291,
-	1286, 1280, 1278, 104,
+	0, 1539, 59, 809, 1538, 1537, 1530, 1323, 1321, 1299,
+	1528, 1526, 1525, 1524, 1523, 1522, 1519, 1517, 1516, 1514,
+	1510, 1508, 1507, 1506, 331, 1505, 1501, 1500, 102, 1499,
+	98, 1498, 1497, 53, 139, 74, 51, 1060, 1496, 39,
+	85, 122, 1493, 67, 1492, 1491, 99, 1490, 83, 1488,
+	1487, 130, 1486, 1485, 23, 9, 1484, 26, 1479, 1478,
+	91, 135, 1477, 1474, 1472, 1470, 1458, 1453, 76, 8,
+	13, 14, 24, 1452, 200, 21, 1451, 68, 1446, 1443,
+	1439, 1436, 47, 1434, 71, 19, 32, 70, 1433, 22,
+	1432, 77, 44, 30, 11, 92, 81, 1430, 43, 82,
+	66, 1426, 1424, 666, 1423, 1419, 1418, 1416, 1415, 1414,
+	529, 646, 1413, 1410, 1409, 55, 0, 217, 45, 97,
+	1407, 52, 1406, 1797, 89, 84, 29, 1405, 49, 54,
+	50, 1401, 1400, 46, 90, 28, 88, 87, 1387, 1386,
+	1381, 1380, 1379, 1062, 40, 132, 75, 1378, 1377, 17,
+	58, 57, 36, 61, 79, 100, 1375, 1374, 33, 1372,
+	16, 20, 1371, 2, 65, 1369, 1367, 1365, 1363, 41,
+	25, 1362, 15, 12, 7, 4, 3, 1357, 1355, 1353,
+	5, 1351, 27, 1350, 6, 1348, 1, 1346, 1345, 1344,
+	1343, 1342, 1339, 1336, 1335, 1334, 1333, 48, 18, 42,
+	31, 37, 56, 34, 1332, 10, 1315, 1311, 1427, 585,
+	1307, 1305, 1303, 1301, 108,
 }
 
 var yyR1 = [...]int{
-	0, 205, 206, 206, 1, 1, 1, 1, 1, 1,
+	0, 206, 207, 207, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 2, 2, 2, 6, 3, 4, 4, 5,
-	5, 7, 7, 27, 27, 8, 9, 9, 9, 209,
-	209, 46, 46, 91, 91, 10, 10, 10, 10, 96,
+	5, 7, 7, 27, 27, 8, 9, 9, 9, 210,
+	210, 46, 46, 91, 91, 10, 10, 10, 10, 96,
 	96, 100, 100, 100, 101, 101, 101, 101, 131, 131,
 	11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
-	11, 201, 201, 202, 202, 202, 203, 203, 204, 204,
-	204, 187, 187, 187, 188, 188, 188, 188, 188, 188,
-	190, 190, 191, 191, 121, 121, 185, 185, 184, 183,
-	183, 182, 182, 181, 192, 192, 16, 165, 166, 166,
-	166, 166, 166, 154, 135, 135, 135, 135, 135, 155,
+	11, 202, 202, 203, 203, 203, 204, 204, 205, 205,
+	205, 188, 188, 188, 189, 189, 189, 189, 189, 189,
+	191, 191, 192, 192, 121, 121, 186, 186, 185, 184,
+	184, 183, 183, 182, 193, 193, 16, 166, 167, 167,
+	167, 167, 167, 154, 154, 162, 162, 162, 162, 162,
+	162, 162, 162, 162, 162, 162, 162, 162, 162, 162,
+	162, 162, 162, 162, 162, 162, 162, 162, 135, 135,
+	135, 135, 135, 155, 155, 155, 155, 155, 155, 155,
 	155, 155, 155, 155, 155, 155, 155, 155, 155, 155,
-	155, 155, 155, 155, 155, 155, 155, 155, 155, 155,
-	198, 198, 198, 199, 199, 199, 199, 199, 199, 199,
-	199, 194, 194, 195, 195, 195, 195, 195, 195, 195,
-	195, 195, 195, 195, 195, 195, 195, 144, 144, 144,
-	144, 144, 144, 193, 193, 189, 189, 189, 139, 139,
-	137, 137, 137, 137, 137, 137, 137, 137, 137, 137,
-	138, 138, 138, 138, 138, 138, 138, 138, 140, 140,
-	140, 140, 140, 140, 140, 140, 136, 136, 141, 141,
-	141, 141, 141, 141, 141, 141, 141, 141, 141, 141,
+	155, 155, 155, 155, 199, 199, 199, 200, 200, 200,
+	200, 200, 200, 200, 200, 195, 195, 196, 196, 196,
+	196, 196, 196, 196, 196, 196, 196, 196, 196, 196,
+	196, 144, 144, 144, 144, 144, 144, 194, 194, 190,
+	190, 190, 139, 139, 137, 137, 137, 137, 137, 137,
+	137, 137, 137, 137, 138, 138, 138, 138, 138, 138,
+	138, 138, 140, 140, 140, 140, 140, 140, 140, 140,
+	136, 136, 141, 141, 141, 141, 141, 141, 141, 141,
 	141, 141, 141, 141, 141, 141, 141, 141, 141, 141,
-	141, 142, 142, 142, 142, 142, 142, 142, 142, 153,
-	153, 143, 143, 151, 151, 152, 152, 152, 150, 150,
-	150, 147, 147, 148, 148, 149, 149, 149, 145, 145,
-	145, 146, 146, 146, 156, 174, 174, 174, 176, 176,
-	177, 177, 175, 175, 175, 175, 175, 175, 175, 175,
-	175, 175, 175, 164, 164, 200, 200, 173, 173, 173,
-	170, 170, 170, 170, 170, 170, 170, 170, 163, 163,
-	172, 172, 171, 171, 158, 158, 158, 158, 158, 159,
-	160, 160, 160, 160, 157, 197, 197, 197, 196, 196,
-	161, 161, 162, 162, 167, 167, 167, 168, 168, 168,
-	169, 169, 169, 12, 12, 12, 12, 12, 12, 12,
-	12, 12, 12, 12, 12, 186, 186, 186, 186, 186,
-	186, 186, 186, 186, 186, 186, 210, 210, 211, 211,
-	211, 211, 211, 211, 211, 180, 178, 178, 179, 179,
-	13, 14, 14, 14, 14, 14, 15, 15, 17, 18,
+	141, 141, 141, 141, 141, 142, 142, 142, 142, 142,
+	142, 142, 142, 153, 153, 143, 143, 151, 151, 152,
+	152, 152, 150, 150, 150, 147, 147, 148, 148, 149,
+	149, 149, 145, 145, 145, 146, 146, 146, 156, 175,
+	175, 175, 177, 177, 178, 178, 176, 176, 176, 176,
+	176, 176, 176, 176, 176, 176, 176, 165, 165, 201,
+	201, 174, 174, 174, 171, 171, 171, 171, 171, 171,
+	171, 171, 164, 164, 173, 173, 172, 172, 158, 158,
+	158, 158, 158, 159, 160, 160, 160, 160, 157, 198,
+	198, 198, 197, 197, 161, 161, 163, 163, 168, 168,
+	168, 169, 169, 169, 170, 170, 170, 12, 12, 12,
+	12, 12, 12, 12, 12, 12, 12, 12, 12, 187,
+	187, 187, 187, 187, 187, 187, 187, 187, 187, 187,
+	211, 211, 212, 212, 212, 212, 212, 212, 212, 181,
+	179, 179, 180, 180, 13, 14, 14, 14, 14, 14,
+	15, 15, 17, 18, 18, 18, 18, 18, 18, 18,
 	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 108, 108, 105, 105, 106, 106, 107, 107,
-	107, 109, 109, 109, 132, 132, 132, 19, 19, 21,
-	21, 22, 23, 20, 20, 20, 20, 20, 212, 24,
-	25, 25, 26, 26, 26, 30, 30, 30, 28, 28,
-	29, 29, 35, 35, 34, 34, 36, 36, 36, 36,
-	120, 120, 120, 119, 119, 38, 38, 39, 39, 40,
-	40, 41, 41, 41, 53, 53, 89, 89, 89, 92,
-	92, 42, 42, 42, 42, 43, 43, 44, 44, 45,
-	45, 127, 127, 126, 126, 126, 125, 125, 47, 47,
-	47, 49, 48, 48, 48, 48, 50, 50, 52, 52,
-	51, 51, 54, 54, 54, 54, 55, 55, 90, 90,
-	37, 37, 37, 37, 37, 37, 37, 104, 104, 57,
-	57, 56, 56, 56, 56, 56, 56, 56, 56, 56,
-	56, 67, 67, 67, 67, 67, 67, 58, 58, 58,
-	58, 58, 58, 58, 33, 33, 68, 68, 68, 74,
-	69, 69, 61, 61, 61, 61, 61, 61, 61, 61,
+	18, 18, 18, 18, 18, 18, 108, 108, 105, 105,
+	106, 106, 107, 107, 107, 109, 109, 109, 132, 132,
+	132, 19, 19, 21, 21, 22, 23, 20, 20, 20,
+	20, 20, 213, 24, 25, 25, 26, 26, 26, 30,
+	30, 30, 28, 28, 29, 29, 35, 35, 34, 34,
+	36, 36, 36, 36, 120, 120, 120, 119, 119, 38,
+	38, 39, 39, 40, 40, 41, 41, 41, 53, 53,
+	89, 89, 89, 92, 92, 42, 42, 42, 42, 43,
+	43, 44, 44, 45, 45, 127, 127, 126, 126, 126,
+	125, 125, 47, 47, 47, 49, 48, 48, 48, 48,
+	50, 50, 52, 52, 51, 51, 54, 54, 54, 54,
+	55, 55, 90, 90, 37, 37, 37, 37, 37, 37,
+	37, 104, 104, 57, 57, 56, 56, 56, 56, 56,
+	56, 56, 56, 56, 56, 67, 67, 67, 67, 67,
+	67, 58, 58, 58, 58, 58, 58, 58, 33, 33,
+	68, 68, 68, 74, 69, 69, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
-	61, 61, 61, 61, 65, 65, 65, 63, 63, 63,
-	63, 63, 63, 63, 63, 63, 63, 63, 63, 63,
-	63, 63, 64, 64, 64, 64, 64, 64, 64, 64,
-	64, 213, 213, 66, 66, 66, 66, 31, 31, 31,
-	31, 31, 130, 130, 133, 133, 133, 133, 133, 133,
-	133, 133, 133, 133, 133, 133, 133, 133, 134, 134,
-	134, 134, 134, 134, 134, 78, 78, 32, 32, 76,
-	76, 77, 79, 79, 75, 75, 75, 60, 60, 60,
-	60, 60, 60, 60, 60, 62, 62, 62, 80, 80,
-	81, 81, 82, 82, 83, 83, 84, 85, 85, 85,
-	86, 86, 86, 86, 87, 87, 87, 59, 59, 59,
-	59, 59, 59, 88, 88, 88, 88, 93, 93, 70,
-	70, 72, 72, 71, 73, 94, 94, 98, 95, 95,
-	99, 99, 99, 99, 97, 97, 97, 122, 122, 122,
-	102, 102, 110, 110, 111, 111, 103, 103, 112, 112,
-	112, 112, 112, 112, 112, 112, 112, 112, 113, 113,
-	113, 114, 114, 117, 117, 118, 118, 123, 123, 124,
-	124, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	61, 61, 61, 61, 61, 61, 61, 61, 65, 65,
+	65, 63, 63, 63, 63, 63, 63, 63, 63, 63,
+	63, 63, 63, 63, 63, 63, 64, 64, 64, 64,
+	64, 64, 64, 64, 64, 214, 214, 66, 66, 66,
+	66, 31, 31, 31, 31, 31, 130, 130, 133, 133,
+	133, 133, 133, 133, 133, 133, 133, 133, 133, 133,
+	133, 133, 134, 134, 134, 134, 134, 134, 134, 78,
+	78, 32, 32, 76, 76, 77, 79, 79, 75, 75,
+	75, 60, 60, 60, 60, 60, 60, 60, 60, 62,
+	62, 62, 80, 80, 81, 81, 82, 82, 83, 83,
+	84, 85, 85, 85, 86, 86, 86, 86, 87, 87,
+	87, 59, 59, 59, 59, 59, 59, 88, 88, 88,
+	88, 93, 93, 70, 70, 72, 72, 71, 73, 94,
+	94, 98, 95, 95, 99, 99, 99, 99, 97, 97,
+	97, 122, 122, 122, 102, 102, 110, 110, 111, 111,
+	103, 103, 112, 112, 112, 112, 112, 112, 112, 112,
+	112, 112, 113, 113, 113, 114, 114, 117, 117, 118,
+	118, 123, 123, 124, 124, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
@@ -2558,8 +2570,8 @@ var yyR1 = [...]int{
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
-	115, 115, 115, 115, 115, 115, 115, 115, 116, 116,
-	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
+	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	115, 115, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
@@ -2572,7 +2584,8 @@ var yyR1 = [...]int{
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 207, 208, 128, 129, 129, 129,
+	116, 116, 116, 116, 116, 208, 209, 128, 129, 129,
+	129,
 }
 
 var yyR2 = [...]int{
@@ -2587,70 +2600,72 @@ var yyR2 = [...]int{
 	1, 0, 2, 2, 0, 2, 2, 2, 2, 2,
 	0, 2, 0, 3, 0, 1, 0, 2, 1, 0,
 	2, 1, 3, 3, 0, 2, 4, 4, 1, 3,
-	3, 3, 3, 2, 3, 1, 1, 1, 1, 2,
-	2, 3, 2, 4, 4, 2, 2, 3, 2, 3,
-	2, 7, 8, 3, 3, 6, 5, 8, 7, 4,
-	2, 4, 6, 2, 1, 1, 1, 1, 1, 1,
-	3, 1, 2, 0, 4, 3, 4, 3, 3, 3,
-	3, 3, 3, 3, 2, 4, 6, 2, 3, 2,
-	3, 1, 3, 0, 2, 0, 2, 3, 2, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	2, 3, 2, 2, 2, 2, 1, 1, 1, 3,
-	3, 2, 1, 2, 1, 2, 1, 1, 4, 4,
-	4, 4, 4, 1, 5, 2, 2, 3, 3, 3,
-	3, 3, 1, 1, 1, 1, 1, 1, 1, 6,
-	6, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	3, 0, 3, 0, 5, 0, 3, 5, 0, 3,
-	3, 0, 1, 0, 1, 0, 2, 1, 0, 3,
-	3, 0, 1, 2, 6, 0, 1, 4, 1, 2,
-	1, 3, 2, 3, 2, 3, 3, 3, 3, 3,
-	3, 3, 3, 0, 1, 1, 1, 0, 2, 5,
-	2, 3, 3, 2, 3, 2, 3, 4, 1, 1,
-	1, 3, 3, 2, 2, 5, 5, 8, 8, 13,
-	1, 1, 2, 2, 10, 0, 1, 1, 0, 3,
-	0, 1, 1, 3, 0, 1, 3, 1, 2, 3,
-	1, 1, 1, 6, 11, 13, 7, 7, 7, 12,
-	7, 7, 7, 4, 5, 1, 1, 1, 1, 1,
+	3, 3, 3, 2, 2, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 7, 1, 3, 8, 8,
-	5, 4, 6, 5, 4, 4, 3, 2, 3, 4,
-	4, 4, 4, 4, 4, 4, 4, 3, 3, 3,
-	3, 4, 3, 6, 4, 2, 4, 2, 2, 2,
-	2, 3, 1, 1, 0, 1, 0, 1, 0, 2,
-	2, 0, 2, 2, 0, 1, 1, 2, 1, 1,
-	2, 1, 1, 2, 2, 2, 2, 2, 0, 2,
-	0, 2, 1, 2, 2, 0, 1, 1, 0, 1,
-	0, 1, 0, 1, 1, 3, 1, 2, 3, 5,
-	0, 1, 2, 1, 1, 0, 2, 1, 3, 1,
-	1, 1, 3, 3, 3, 7, 1, 1, 3, 1,
-	3, 4, 4, 4, 3, 2, 4, 0, 1, 0,
-	2, 0, 1, 0, 1, 2, 1, 1, 1, 2,
-	2, 1, 2, 3, 2, 3, 2, 2, 2, 1,
-	1, 3, 0, 5, 5, 5, 0, 2, 0, 4,
-	1, 3, 3, 2, 3, 1, 2, 0, 3, 1,
-	1, 3, 3, 4, 4, 5, 3, 4, 5, 6,
-	2, 1, 2, 1, 2, 1, 2, 1, 1, 1,
-	1, 1, 1, 1, 0, 2, 1, 1, 1, 3,
-	1, 3, 1, 1, 1, 1, 1, 3, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 3, 2, 2, 2, 2, 2, 2, 3, 3,
-	1, 1, 1, 1, 4, 5, 6, 4, 4, 6,
-	6, 6, 6, 8, 8, 6, 8, 8, 9, 7,
-	5, 4, 2, 2, 2, 2, 2, 2, 2, 2,
-	2, 0, 2, 4, 4, 4, 4, 0, 3, 4,
-	7, 3, 1, 1, 2, 3, 3, 1, 2, 2,
-	1, 1, 2, 1, 2, 2, 1, 2, 1, 2,
-	1, 1, 1, 1, 1, 0, 1, 0, 2, 1,
-	2, 4, 0, 2, 1, 3, 5, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 2, 2, 0, 3,
-	0, 2, 0, 3, 1, 3, 2, 0, 1, 1,
-	0, 2, 4, 4, 0, 2, 4, 2, 1, 3,
-	5, 4, 6, 1, 3, 3, 5, 0, 5, 1,
-	3, 1, 2, 3, 1, 1, 3, 3, 1, 3,
-	3, 3, 3, 3, 1, 2, 1, 1, 1, 1,
-	1, 1, 0, 2, 0, 3, 0, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 0, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 3, 1,
+	1, 1, 1, 2, 2, 3, 2, 4, 4, 2,
+	2, 3, 2, 3, 2, 7, 8, 3, 3, 6,
+	5, 8, 7, 4, 2, 4, 6, 2, 1, 1,
+	1, 1, 1, 1, 3, 1, 2, 0, 4, 3,
+	4, 3, 3, 3, 3, 3, 3, 3, 2, 4,
+	6, 2, 3, 2, 3, 1, 3, 0, 2, 0,
+	2, 3, 2, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 1, 1, 2, 3, 2, 2, 2, 2,
+	1, 1, 1, 3, 3, 2, 1, 2, 1, 2,
+	1, 1, 4, 4, 4, 4, 4, 1, 5, 2,
+	2, 3, 3, 3, 3, 3, 1, 1, 1, 1,
+	1, 1, 1, 6, 6, 1, 1, 1, 1, 1,
+	1, 1, 1, 1, 3, 0, 3, 0, 5, 0,
+	3, 5, 0, 3, 3, 0, 1, 0, 1, 0,
+	2, 1, 0, 3, 3, 0, 1, 2, 6, 0,
+	1, 4, 1, 2, 1, 3, 2, 3, 2, 3,
+	3, 3, 3, 3, 3, 3, 3, 0, 1, 1,
+	1, 0, 2, 5, 2, 3, 3, 2, 3, 2,
+	3, 4, 1, 1, 1, 3, 3, 2, 2, 5,
+	5, 8, 8, 13, 1, 1, 2, 2, 10, 0,
+	1, 1, 0, 3, 0, 1, 1, 3, 0, 1,
+	3, 1, 2, 3, 1, 1, 1, 6, 11, 13,
+	7, 7, 7, 12, 7, 7, 7, 4, 5, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 7,
+	1, 3, 8, 8, 5, 4, 6, 5, 4, 4,
+	3, 2, 3, 4, 4, 4, 4, 4, 4, 4,
+	4, 3, 3, 3, 3, 4, 3, 6, 4, 2,
+	4, 2, 2, 2, 2, 3, 1, 1, 0, 1,
+	0, 1, 0, 2, 2, 0, 2, 2, 0, 1,
+	1, 2, 1, 1, 2, 1, 1, 2, 2, 2,
+	2, 2, 0, 2, 0, 2, 1, 2, 2, 0,
+	1, 1, 0, 1, 0, 1, 0, 1, 1, 3,
+	1, 2, 3, 5, 0, 1, 2, 1, 1, 0,
+	2, 1, 3, 1, 1, 1, 3, 3, 3, 7,
+	1, 1, 3, 1, 3, 4, 4, 4, 3, 2,
+	4, 0, 1, 0, 2, 0, 1, 0, 1, 2,
+	1, 1, 1, 2, 2, 1, 2, 3, 2, 3,
+	2, 2, 2, 1, 1, 3, 0, 5, 5, 5,
+	0, 2, 0, 4, 1, 3, 3, 2, 3, 1,
+	2, 0, 3, 1, 1, 3, 3, 4, 4, 5,
+	3, 4, 5, 6, 2, 1, 2, 1, 2, 1,
+	2, 1, 1, 1, 1, 1, 1, 1, 0, 2,
+	1, 1, 1, 3, 1, 3, 1, 1, 1, 1,
+	1, 3, 3, 3, 3, 3, 3, 3, 3, 3,
+	3, 3, 3, 3, 3, 3, 2, 2, 2, 2,
+	2, 2, 3, 3, 1, 1, 1, 1, 4, 5,
+	6, 4, 4, 6, 6, 6, 6, 8, 8, 6,
+	8, 8, 9, 7, 5, 4, 2, 2, 2, 2,
+	2, 2, 2, 2, 2, 0, 2, 4, 4, 4,
+	4, 0, 3, 4, 7, 3, 1, 1, 2, 3,
+	3, 1, 2, 2, 1, 1, 2, 1, 2, 2,
+	1, 2, 1, 2, 1, 1, 1, 1, 1, 0,
+	1, 0, 2, 1, 2, 4, 0, 2, 1, 3,
+	5, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	2, 2, 0, 3, 0, 2, 0, 3, 1, 3,
+	2, 0, 1, 1, 0, 2, 4, 4, 0, 2,
+	4, 2, 1, 3, 5, 4, 6, 1, 3, 3,
+	5, 0, 5, 1, 3, 1, 2, 3, 1, 1,
+	3, 3, 1, 3, 3, 3, 3, 3, 1, 2,
+	1, 1, 1, 1, 1, 1, 0, 2, 0, 3,
+	0, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 0, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2675,17 +2690,18 @@ var yyR2 = [...]int{
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 0, 0, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 0, 0, 1,
+	1,
 }
 
 var yyChk = [...]int{
-	-1000, -205, -1, -2, -6, -7, -8, -9, -10, -11,
+	-1000, -206, -1, -2, -6, -7, -8, -9, -10, -11,
 	-12, -13, -14, -15, -17, -18, -19, -21, -22, -23,
 	-20, -3, -4, 6, 7, -27, 9, 10, 29, -16,
 	112, 113, 115, 114, 143, 116, 136, 48, 175, 176,
-	178, 179, 25, 137, 138, 141, 142, -207, 8, 279,
-	52, -206, 313, -82, 15, -26, 5, -24, -212, -24,
-	-24, -24, -24, -24, -165, 52, -121, -192, 151, 271,
+	178, 179, 25, 137, 138, 141, 142, -208, 8, 279,
+	52, -207, 313, -82, 15, -26, 5, -24, -213, -24,
+	-24, -24, -24, -24, -166, 52, -121, -193, 151, 271,
 	118, 133, 150, 119, 134, 70, -103, 121, 123, 119,
 	119, 120, 121, 271, 118, 119, -51, -123, 55, -116,
 	158, 288, 20, 175, 188, 189, 180, 221, 209, 289,
@@ -2704,15 +2720,15 @@ var yyChk = [...]int{
 	168, 169, 170, 119, 106, 210, 112, 248, 120, 31,
 	149, -132, 119, -105, 152, 250, 251, 252, 253, 55,
 	260, 259, 254, -123, 177, -128, -128, -128, -128, -128,
-	-2, -86, 17, 16, -5, -3, -207, 6, 20, 21,
+	-2, -86, 17, 16, -5, -3, -208, 6, 20, 21,
 	-30, 38, 39, -25, -36, 97, -37, -123, -56, 72,
 	-61, 28, 55, -116, 23, -60, -57, -75, -73, -74,
 	106, 107, 95, 96, 103, 73, 108, -65, -63, -64,
 	-66, 57, 56, 65, 58, 59, 60, 61, 66, 67,
-	68, -117, -71, -207, 42, 43, 280, 281, 282, 283,
+	68, -117, -71, -208, 42, 43, 280, 281, 282, 283,
 	287, 284, 75, 32, 270, 278, 277, 276, 274, 275,
 	272, 273, 311, 124, 271, 101, 279, -103, -39, -40,
-	-41, -42, -53, -74, -207, -51, 11, -46, -51, -95,
+	-41, -42, -53, -74, -208, -51, 11, -46, -51, -95,
 	-131, 177, -99, 260, 259, -118, -97, -117, -115, 258,
 	210, 257, 55, -116, 117, 172, 298, 71, 22, 24,
 	241, 247, 171, 74, 106, 16, 75, 307, 308, 105,
@@ -2725,303 +2741,309 @@ var yyChk = [...]int{
 	15, 45, 133, 89, 115, 279, 43, 174, 118, 6,
 	285, 29, 136, 41, 119, 249, 77, 122, 67, 5,
 	134, 9, 48, 51, 276, 277, 278, 32, 76, 12,
-	69, -166, -154, 55, -197, 307, 308, 121, -117, -111,
-	124, -111, -117, -117, -111, 279, 119, -51, -51, -110,
-	124, 55, -110, -110, -110, -51, 109, -51, 55, 29,
-	271, 55, 149, 119, 150, 121, -129, -207, -118, -129,
-	-129, -129, 153, 154, -129, -106, 255, 50, -129, -208,
-	54, -87, 19, 30, -37, -123, -83, -84, -37, -82,
-	-2, -24, 34, -28, 21, 63, 11, -120, 71, 70,
-	87, -119, 22, -117, 57, 109, -37, -58, 90, 72,
-	88, 89, 74, 92, 91, 102, 95, 96, 97, 98,
-	99, 100, 101, 93, 94, 105, 311, 80, 81, 82,
-	83, 84, 85, 86, -104, -207, -74, -207, 110, 111,
-	-61, -61, -61, -61, -61, -61, -61, -207, -2, -69,
-	-37, -207, -207, -207, -207, -207, -207, -207, -207, -207,
-	-78, -37, -207, -213, -207, -213, -213, -213, -213, -213,
-	-213, -213, -134, 106, 210, 139, 201, -137, -136, 216,
-	180, 181, 182, 183, 184, 185, 186, 187, 188, 189,
-	209, 289, -207, -207, -207, -207, -52, 26, -51, 29,
-	53, -47, -49, -48, -50, 40, 44, 46, 41, 42,
-	43, 47, -127, 22, -39, -207, -126, 145, -125, 22,
-	-123, 57, -51, -46, -209, 53, 11, 51, 53, -95,
-	177, -96, -100, 261, 263, 80, -122, -117, 57, 28,
-	29, 54, 53, -155, -135, -139, -136, -141, -140, -142,
-	-137, -138, 206, 210, 207, 212, 213, 214, 106, 211,
-	216, 217, 218, 219, 220, 221, 222, 223, 224, 225,
-	226, 215, 227, 29, 139, 199, 200, 201, 204, 203,
-	205, 202, 228, 229, 230, 231, 232, 233, 234, 235,
-	191, 192, 194, 195, 196, 198, 197, 120, -51, -185,
-	51, 55, 72, 55, 50, -201, 50, 171, 172, -51,
-	-51, 265, -129, 122, -51, 23, 50, -51, 55, 55,
-	-124, -123, -115, -129, -129, -129, -129, -129, -129, -129,
-	-129, -129, -129, -108, 249, 256, -51, 9, 90, 53,
-	18, 109, 53, -85, 24, 25, -86, -208, -30, -62,
-	-117, 58, 61, -29, 41, -51, -37, -37, -67, 66,
-	72, 67, 68, -119, 97, -124, -118, -115, -61, -68,
-	-71, -74, 62, 90, 88, 89, 74, -61, -61, -61,
-	-61, -61, -61, -61, -61, -61, -61, -61, -61, -61,
-	-61, -61, -130, 55, 57, -134, 55, -60, -60, -117,
-	-35, 21, -34, -36, -208, 53, -208, -2, -34, -34,
-	-37, -37, -75, -117, -123, -75, -34, -28, -76, -77,
-	76, -75, -208, 208, -34, -35, -34, -34, -91, 145,
-	-51, -94, -98, -75, -40, -41, -41, -40, -41, 40,
-	40, 40, 45, 40, 45, 40, -48, -123, -208, -54,
-	48, 123, 49, -207, -125, -91, 51, -39, -51, -99,
-	-96, 53, 262, 264, 265, 50, 69, -37, -146, 106,
-	105, -167, -168, -169, -118, 57, 58, -154, -156, -158,
-	-157, -170, -159, 127, 125, 129, 130, 134, -163, 120,
-	135, 66, 72, -198, 127, 50, 241, 247, 125, 135,
-	134, 312, 64, 128, 297, 299, 28, -149, 314, 236,
-	-147, 244, -143, 52, -143, -143, 208, -143, -143, -143,
-	-143, -143, -145, 210, -145, -145, -145, -145, 52, 52,
-	-143, -143, -143, -143, -143, -151, 52, 193, -151, -151,
-	-152, 52, -152, -117, 22, -183, 291, -184, 55, -129,
-	23, -129, -51, -202, 8, 9, 10, -51, -112, 117,
-	114, 115, -180, 113, 241, 210, 64, 28, 15, 280,
-	145, 296, 55, 146, -51, -51, -51, -129, -107, 11,
-	90, 36, -37, -37, -124, -84, -87, -102, 19, 11,
-	32, 32, -34, 66, 67, 68, 109, -207, -68, -61,
-	-61, -61, -33, 140, 71, -208, -208, -34, 53, -37,
-	-208, -208, -208, 53, 51, 22, 53, 11, 109, 53,
-	11, -208, -34, -79, -77, 78, -37, -208, -208, -208,
-	-208, -208, -59, 29, 32, -2, -207, -207, -55, 53,
-	12, 80, -44, -43, 50, 51, -45, 50, -43, 40,
-	40, 120, 120, 120, -92, -117, -55, -39, -55, -100,
-	-101, 266, 263, 269, 55, 53, -169, 80, 52, -196,
-	50, 72, -161, -117, 135, -163, -163, 55, -163, 55,
-	55, 66, 19, -117, 9, 135, 135, -196, 57, -123,
-	-194, 298, 16, 52, -199, 52, 57, 58, 59, 66,
-	-144, 65, -57, 237, 270, 273, 272, 238, 315, -148,
-	245, 58, -145, -145, -143, -145, -145, -145, -146, 29,
-	-146, -146, -146, -146, -153, 57, -153, -150, 291, 292,
-	-150, 58, -151, 58, 50, 51, -2, -182, -181, -118,
-	-187, 22, 50, -201, -128, -121, -211, 151, 126, 131,
-	130, 55, 125, 129, 145, -186, 151, 126, 127, 131,
-	130, 55, 120, 135, 125, 129, 145, 134, -113, -114,
-	122, 22, 120, 135, 145, 117, -129, -109, 88, 12,
-	-123, -123, 37, 109, -51, -38, 11, 97, -118, -35,
-	-33, 71, -61, -61, -208, -36, -133, 106, 206, 139,
-	201, 195, 225, 226, 212, 243, 199, 244, -130, -133,
-	-61, -61, -118, -61, -61, 288, -82, 79, -37, 77,
-	-93, 50, -94, -70, -72, -71, -207, -2, -88, -117,
-	-92, -82, -98, -37, -37, -37, 52, -37, -207, -207,
-	-207, -208, 53, -82, -55, 263, 267, 268, -168, -169,
-	-172, -171, -117, 135, 10, 9, 19, 131, 125, 55,
-	55, 55, -197, 134, 309, -198, 312, -144, -207, 52,
-	22, 28, 58, -199, 52, -189, 311, -207, -143, 52,
-	-143, 52, 52, 54, -146, -146, -145, -146, -146, -146,
-	55, 106, 54, 53, 54, 199, 199, 53, 54, 53,
-	-51, -117, 53, 80, -188, 19, 159, 160, -51, -202,
-	-210, 120, 135, -128, -117, -128, -117, -51, -128, -117,
-	127, -158, 57, -37, -55, -39, -208, -61, -208, -143,
-	-143, -143, -152, -143, 186, -143, 186, -208, -208, -208,
-	53, 19, -208, 53, 19, -207, -32, 285, -37, 27,
-	-93, 53, -208, -208, -208, 53, 109, -208, -86, -89,
-	-117, 135, -89, -89, -89, -126, -117, -86, 54, 53,
-	-143, -143, -160, 155, 156, 29, 157, -160, 309, 135,
-	135, -197, -196, -37, -89, 299, 53, 54, -199, 239,
-	-135, -208, 54, 54, 54, -146, -145, 57, -145, 246,
-	246, 58, 58, 52, 51, 50, -181, -169, 122, 20,
-	6, 8, 9, 10, 19, 22, -117, 52, 26, -117,
-	-80, 13, -145, 55, -61, -61, -61, -61, -61, -208,
-	57, 135, -72, 32, -2, -207, -117, -117, 53, 54,
-	-208, -208, -208, -54, -174, -176, 291, -175, 51, 132,
-	64, 164, 165, 166, 167, 168, 169, 170, -171, -85,
-	-196, 50, 66, 158, -196, 50, -161, -117, -197, -207,
-	-208, 54, 52, 58, 54, -149, -146, -146, 54, 54,
-	-172, -117, -51, -162, -117, 173, -203, -204, -7, -9,
-	-8, 52, -89, -207, 125, -81, 14, 16, -208, -208,
-	-208, -208, -31, 90, 291, 9, -70, -2, 109, -117,
-	-173, 50, -175, 291, 52, 293, 55, -164, 80, 57,
-	80, 80, 80, 80, 80, 80, 80, 9, 10, 52,
-	52, -37, -193, 157, -195, 54, 54, 54, 52, 52,
-	-190, 53, 51, 174, -204, -172, 54, -178, -179, 145,
-	135, -37, -69, -208, 289, 47, 294, -94, -208, -117,
-	-117, -177, -175, -117, 58, -200, 50, 69, 58, -200,
-	-200, -200, -200, -200, -160, -160, -162, -172, -208, 286,
-	54, 176, 301, 302, 144, 303, 157, 304, 305, -90,
-	310, -172, -172, -191, 291, -117, -37, -204, 54, -185,
-	-208, 53, -117, 52, 37, 290, 295, -207, 54, 53,
-	-196, -196, 54, 54, 291, 58, 16, 58, 58, 58,
-	58, 302, 144, 304, 16, -55, 52, 54, 54, 312,
-	-183, -179, 32, -172, 37, -117, -175, 128, -174, 58,
-	58, 306, -123, -174, -89, -55, -174, -37, 147, 54,
-	291, -208, -51, -173, 109, -173, 54, -174, 148, 294,
-	52, -118, -207, 295, -162, -61, 144, 54, -208, -208,
+	69, -167, -154, 55, -162, 158, 64, 139, 201, 290,
+	262, 37, 257, 18, 229, 294, 260, 36, 176, 153,
+	216, 199, 200, 177, 215, 121, 202, 246, -198, 307,
+	308, 121, -117, -111, 124, -111, -117, -117, -111, 279,
+	119, -51, -51, -110, 124, 55, -110, -110, -110, -51,
+	109, -51, 55, 29, 271, 55, 149, 119, 150, 121,
+	-129, -208, -118, -129, -129, -129, 153, 154, -129, -106,
+	255, 50, -129, -209, 54, -87, 19, 30, -37, -123,
+	-83, -84, -37, -82, -2, -24, 34, -28, 21, 63,
+	11, -120, 71, 70, 87, -119, 22, -117, 57, 109,
+	-37, -58, 90, 72, 88, 89, 74, 92, 91, 102,
+	95, 96, 97, 98, 99, 100, 101, 93, 94, 105,
+	311, 80, 81, 82, 83, 84, 85, 86, -104, -208,
+	-74, -208, 110, 111, -61, -61, -61, -61, -61, -61,
+	-61, -208, -2, -69, -37, -208, -208, -208, -208, -208,
+	-208, -208, -208, -208, -78, -37, -208, -214, -208, -214,
+	-214, -214, -214, -214, -214, -214, -134, 106, 210, 139,
+	201, -137, -136, 216, 180, 181, 182, 183, 184, 185,
+	186, 187, 188, 189, 209, 289, -208, -208, -208, -208,
+	-52, 26, -51, 29, 53, -47, -49, -48, -50, 40,
+	44, 46, 41, 42, 43, 47, -127, 22, -39, -208,
+	-126, 145, -125, 22, -123, 57, -51, -46, -210, 53,
+	11, 51, 53, -95, 177, -96, -100, 261, 263, 80,
+	-122, -117, 57, 28, 29, 54, 53, -155, -135, -139,
+	-136, -141, -140, -142, -137, -138, 206, 210, 207, 212,
+	213, 214, 106, 211, 216, 217, 218, 219, 220, 221,
+	222, 223, 224, 225, 226, 215, 227, 29, 139, 199,
+	200, 201, 204, 203, 205, 202, 228, 229, 230, 231,
+	232, 233, 234, 235, 191, 192, 194, 195, 196, 198,
+	197, -155, 120, -51, -186, 51, 55, 72, 55, 50,
+	-202, 50, 171, 172, -51, -51, 265, -129, 122, -51,
+	23, 50, -51, 55, 55, -124, -123, -115, -129, -129,
+	-129, -129, -129, -129, -129, -129, -129, -129, -108, 249,
+	256, -51, 9, 90, 53, 18, 109, 53, -85, 24,
+	25, -86, -209, -30, -62, -117, 58, 61, -29, 41,
+	-51, -37, -37, -67, 66, 72, 67, 68, -119, 97,
+	-124, -118, -115, -61, -68, -71, -74, 62, 90, 88,
+	89, 74, -61, -61, -61, -61, -61, -61, -61, -61,
+	-61, -61, -61, -61, -61, -61, -61, -130, 55, 57,
+	-134, 55, -60, -60, -117, -35, 21, -34, -36, -209,
+	53, -209, -2, -34, -34, -37, -37, -75, -117, -123,
+	-75, -34, -28, -76, -77, 76, -75, -209, 208, -34,
+	-35, -34, -34, -91, 145, -51, -94, -98, -75, -40,
+	-41, -41, -40, -41, 40, 40, 40, 45, 40, 45,
+	40, -48, -123, -209, -54, 48, 123, 49, -208, -125,
+	-91, 51, -39, -51, -99, -96, 53, 262, 264, 265,
+	50, 69, -37, -146, 106, 105, -168, -169, -170, -118,
+	57, 58, -154, -156, -158, -157, -171, -159, 127, 125,
+	129, 130, 134, -164, 120, 135, 66, 72, -199, 127,
+	50, 241, 247, 125, 135, 134, 312, 64, 128, 297,
+	299, 28, -149, 314, 236, -147, 244, -143, 52, -143,
+	-143, 208, -143, -143, -143, -143, -143, -145, 210, -145,
+	-145, -145, -145, 52, 52, -143, -143, -143, -143, -143,
+	-151, 52, 193, -151, -151, -152, 52, -152, -117, 22,
+	-184, 291, -185, 55, -129, 23, -129, -51, -203, 8,
+	9, 10, -51, -112, 117, 114, 115, -181, 113, 241,
+	210, 64, 28, 15, 280, 145, 296, 55, 146, -51,
+	-51, -51, -129, -107, 11, 90, 36, -37, -37, -124,
+	-84, -87, -102, 19, 11, 32, 32, -34, 66, 67,
+	68, 109, -208, -68, -61, -61, -61, -33, 140, 71,
+	-209, -209, -34, 53, -37, -209, -209, -209, 53, 51,
+	22, 53, 11, 109, 53, 11, -209, -34, -79, -77,
+	78, -37, -209, -209, -209, -209, -209, -59, 29, 32,
+	-2, -208, -208, -55, 53, 12, 80, -44, -43, 50,
+	51, -45, 50, -43, 40, 40, 120, 120, 120, -92,
+	-117, -55, -39, -55, -100, -101, 266, 263, 269, 55,
+	53, -170, 80, 52, -197, 50, 72, -161, -117, 135,
+	-164, -164, 55, -164, 55, 55, 66, 19, -117, 9,
+	135, 135, -197, 57, -123, -195, 298, 16, 52, -200,
+	52, 57, 58, 59, 66, -144, 65, -57, 237, 270,
+	273, 272, 238, 315, -148, 245, 58, -145, -145, -143,
+	-145, -145, -145, -146, 29, -146, -146, -146, -146, -153,
+	57, -153, -150, 291, 292, -150, 58, -151, 58, 50,
+	51, -2, -183, -182, -118, -188, 22, 50, -202, -128,
+	-121, -212, 151, 126, 131, 130, 55, 125, 129, 145,
+	-187, 151, 126, 127, 131, 130, 55, 120, 135, 125,
+	129, 145, 134, -113, -114, 122, 22, 120, 135, 145,
+	117, -129, -109, 88, 12, -123, -123, 37, 109, -51,
+	-38, 11, 97, -118, -35, -33, 71, -61, -61, -209,
+	-36, -133, 106, 206, 139, 201, 195, 225, 226, 212,
+	243, 199, 244, -130, -133, -61, -61, -118, -61, -61,
+	288, -82, 79, -37, 77, -93, 50, -94, -70, -72,
+	-71, -208, -2, -88, -117, -92, -82, -98, -37, -37,
+	-37, 52, -37, -208, -208, -208, -209, 53, -82, -55,
+	263, 267, 268, -169, -170, -173, -172, -117, 135, 10,
+	9, 19, 131, 125, 55, 55, 55, -198, 134, 309,
+	-199, 312, -144, -208, 52, 22, 28, 58, -200, 52,
+	-190, 311, -208, -143, 52, -143, 52, 52, 54, -146,
+	-146, -145, -146, -146, -146, 55, 106, 54, 53, 54,
+	199, 199, 53, 54, 53, -51, -117, 53, 80, -189,
+	19, 159, 160, -51, -203, -211, 120, 135, -128, -117,
+	-128, -117, -51, -128, -117, 127, -158, 57, -37, -55,
+	-39, -209, -61, -209, -143, -143, -143, -152, -143, 186,
+	-143, 186, -209, -209, -209, 53, 19, -209, 53, 19,
+	-208, -32, 285, -37, 27, -93, 53, -209, -209, -209,
+	53, 109, -209, -86, -89, -117, 135, -89, -89, -89,
+	-126, -117, -86, 54, 53, -143, -143, -160, 155, 156,
+	29, 157, -160, 309, 135, 135, -198, -197, -37, -89,
+	299, 53, 54, -200, 239, -135, -209, 54, 54, 54,
+	-146, -145, 57, -145, 246, 246, 58, 58, 52, 51,
+	50, -182, -170, 122, 20, 6, 8, 9, 10, 19,
+	22, -117, 52, 26, -117, -80, 13, -145, 55, -61,
+	-61, -61, -61, -61, -209, 57, 135, -72, 32, -2,
+	-208, -117, -117, 53, 54, -209, -209, -209, -54, -175,
+	-177, 291, -176, 51, 132, 64, 164, 165, 166, 167,
+	168, 169, 170, -172, -85, -197, 50, 66, 158, -197,
+	50, -161, -117, -198, -208, -209, 54, 52, 58, 54,
+	-149, -146, -146, 54, 54, -173, -117, -51, -163, -117,
+	173, -204, -205, -7, -9, -8, 52, -89, -208, 125,
+	-81, 14, 16, -209, -209, -209, -209, -31, 90, 291,
+	9, -70, -2, 109, -117, -174, 50, -176, 291, 52,
+	293, 55, -165, 80, 57, 80, 80, 80, 80, 80,
+	80, 80, 9, 10, 52, 52, -37, -194, 157, -196,
+	54, 54, 54, 52, 52, -191, 53, 51, 174, -205,
+	-173, 54, -179, -180, 145, 135, -37, -69, -209, 289,
+	47, 294, -94, -209, -117, -117, -178, -176, -117, 58,
+	-201, 50, 69, 58, -201, -201, -201, -201, -201, -160,
+	-160, -163, -173, -209, 286, 54, 176, 301, 302, 144,
+	303, 157, 304, 305, -90, 310, -173, -173, -192, 291,
+	-117, -37, -205, 54, -186, -209, 53, -117, 52, 37,
+	290, 295, -208, 54, 53, -197, -197, 54, 54, 291,
+	58, 16, 58, 58, 58, 58, 302, 144, 304, 16,
+	-55, 52, 54, 54, 312, -184, -180, 32, -173, 37,
+	-117, -176, 128, -175, 58, 58, 306, -123, -175, -89,
+	-55, -175, -37, 147, 54, 291, -209, -51, -174, 109,
+	-174, 54, -175, 148, 294, 52, -118, -208, 295, -163,
+	-61, 144, 54, -209, -209,
 }
 
 var yyDef = [...]int{
 	0, -2, 2, -2, 5, 6, 7, 8, 9, 10,
 	11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-	21, 672, 0, 428, 428, 428, 428, 428, 428, 0,
-	-2, 726, 0, 0, 0, 0, -2, 418, 419, 0,
-	421, 422, 993, 993, 993, 993, 993, 0, 33, 34,
-	991, 1, 3, 680, 0, 0, 432, 435, 430, 0,
-	726, 0, 0, 0, 60, 0, 315, 0, 0, 724,
-	724, 0, 0, 724, 95, 0, 0, 0, 727, 0,
-	722, 0, 722, 722, 722, 0, 377, 500, 747, 748,
-	858, 859, 860, 861, 862, 863, 864, 865, 866, 867,
-	868, 869, 870, 871, 872, 873, 874, 875, 876, 877,
-	878, 879, 880, 881, 882, 883, 884, 885, 886, 887,
-	888, 889, 890, 891, 892, 893, 894, 895, 896, 897,
-	898, 899, 900, 901, 902, 903, 904, 905, 906, 907,
-	908, 909, 910, 911, 912, 913, 914, 915, 916, 917,
-	918, 919, 920, 921, 922, 923, 924, 925, 926, 927,
-	928, 929, 930, 931, 932, 933, 934, 935, 936, 937,
-	938, 939, 940, 941, 942, 943, 944, 945, 946, 947,
-	948, 949, 950, 951, 952, 953, 954, 955, 956, 957,
-	958, 959, 960, 961, 962, 963, 964, 965, 966, 967,
-	968, 969, 970, 971, 972, 973, 974, 975, 976, 977,
-	978, 979, 980, 981, 982, 983, 984, 985, 986, 987,
-	988, 989, 990, 0, 0, 0, 0, 994, 994, 994,
-	994, 0, 994, 406, 395, 397, 398, 399, 400, 994,
-	415, 416, 405, 417, 420, 423, 424, 425, 426, 427,
-	27, 684, 0, 0, 672, 29, 0, 428, 433, 434,
-	438, 436, 437, 429, 0, 446, 450, 0, 510, 0,
-	515, 517, -2, -2, 0, 552, 553, 554, 555, 556,
-	0, 0, 0, 0, 0, 0, 0, 580, 581, 582,
-	583, 657, 658, 659, 660, 661, 662, 663, 664, 519,
-	520, 654, 704, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 645, 0, 611, 611, 611, 611, 611, 611,
-	611, 611, 0, 0, 0, 0, 0, 0, 0, 457,
-	459, 460, 461, 481, 0, 483, 0, 0, 41, 45,
-	0, 960, 708, -2, -2, 0, 0, 745, 746, -2,
-	870, -2, 743, 744, 751, 752, 753, 754, 755, 756,
-	757, 758, 759, 760, 761, 762, 763, 764, 765, 766,
-	767, 768, 769, 770, 771, 772, 773, 774, 775, 776,
-	777, 778, 779, 780, 781, 782, 783, 784, 785, 786,
-	787, 788, 789, 790, 791, 792, 793, 794, 795, 796,
-	797, 798, 799, 800, 801, 802, 803, 804, 805, 806,
-	807, 808, 809, 810, 811, 812, 813, 814, 815, 816,
-	817, 818, 819, 820, 821, 822, 823, 824, 825, 826,
-	827, 828, 829, 830, 831, 832, 833, 834, 835, 836,
-	837, 838, 839, 840, 841, 842, 843, 844, 845, 846,
-	847, 848, 849, 850, 851, 852, 853, 854, 855, 856,
-	857, 0, 108, 0, 0, 316, 317, 0, 96, 0,
-	0, 0, 0, 0, 0, 105, 0, 994, 0, 0,
-	0, 0, 0, 0, 0, 376, 0, 378, 994, 994,
-	994, 994, 994, 994, 994, 994, 387, 995, 996, 388,
-	389, 390, 994, 994, 392, 0, 407, 0, 401, 28,
-	992, 22, 0, 0, 681, 0, 673, 674, 677, 680,
-	27, 435, 0, 440, 439, 431, 0, 447, 0, 0,
-	0, 451, 0, 453, 454, 0, 513, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 537, 538, 539,
-	540, 541, 542, 543, 516, 0, 530, 0, 0, 0,
-	572, 573, 574, 575, 576, 577, 0, 442, 27, 0,
-	550, 0, 0, 0, 0, 0, 0, 0, 0, 438,
-	0, 646, 0, 602, 0, 603, 604, 605, 606, 607,
-	608, 609, 610, 638, 0, 640, 641, 642, 643, 644,
-	180, 181, 182, 183, 184, 185, 186, 187, 188, 189,
-	206, 207, 0, 442, 0, 0, 43, 0, 499, 0,
-	0, 0, 0, 0, 0, 488, 0, 0, 491, 0,
-	0, 0, 0, 482, 0, 0, 502, 924, 484, 0,
-	486, 487, -2, 0, 0, 0, 39, 40, 0, 46,
-	960, 48, 49, 0, 0, 0, 261, 717, 718, 719,
-	715, 324, 0, 113, 255, 251, 115, 116, 117, 118,
-	241, 179, 241, 241, 241, 241, 241, 213, 241, 241,
-	258, 258, 258, 258, 258, 222, 223, 224, 225, 226,
-	227, 228, 0, 0, 198, 241, 241, 241, 202, 241,
-	204, 241, 231, 232, 233, 234, 235, 236, 237, 238,
-	243, 243, 243, 245, 245, 196, 197, 0, 0, 99,
-	0, 994, 0, 994, 0, 0, 0, 71, 72, 106,
-	0, 0, 343, 0, 371, 723, 0, 994, 374, 375,
-	501, 749, 750, 379, 380, 381, 382, 383, 384, 385,
-	386, 391, 394, 408, 402, 403, 396, 685, 0, 0,
-	0, 0, 0, 676, 678, 679, 684, 30, 438, 0,
-	665, 0, 0, 0, 441, 25, 511, 512, 514, 531,
-	0, 533, 535, 452, 448, 0, 655, -2, 521, 522,
-	546, 547, 548, 0, 0, 0, 0, 544, 526, 0,
-	557, 558, 559, 560, 561, 562, 563, 564, 565, 566,
-	567, 568, 571, 622, 623, 579, 0, 569, 570, 578,
-	0, 0, 443, 444, 549, 0, 703, 27, 0, 0,
-	0, 0, 0, 654, 0, 0, 0, 0, 652, 649,
-	0, 0, 612, 639, 0, 0, 0, 0, 0, 0,
-	498, 506, 705, 0, 458, 477, 479, 0, 474, 489,
-	490, 492, 0, 494, 0, 496, 497, 462, 463, 464,
-	0, 0, 0, 0, 485, 506, 0, 506, 42, 709,
-	47, 0, 0, 52, 53, 710, 711, 712, 713, 262,
-	0, 107, 325, 327, 330, 331, 332, 109, 110, 111,
-	112, 0, 318, 320, 0, 0, 0, 0, 0, 298,
-	299, 120, 0, 122, 0, 0, 125, 126, 0, 128,
-	130, 318, 0, 0, 0, 0, 0, 119, 0, 257,
-	253, 252, 178, 0, 258, 258, 241, 258, 258, 258,
-	215, 216, 261, 0, 261, 261, 261, 261, 0, 0,
-	248, 248, 201, 203, 205, 190, 0, 243, 192, 193,
-	194, 0, 195, 0, 0, 65, 0, 97, 98, 66,
-	725, 67, 81, 0, 73, 74, 75, 0, 993, 94,
-	0, 738, 344, 728, 729, 730, 731, 732, 733, 734,
-	735, 736, 737, 0, 0, 370, 994, 373, 411, 0,
-	0, 0, 682, 683, 0, 675, 23, 0, 720, 721,
-	666, 667, 455, 532, 534, 536, 0, 442, 523, 544,
-	527, 0, 524, 0, 0, 518, 584, 0, 0, 551,
-	-2, 587, 588, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 672, 0, 650, 0, 0, 601, 613, 614,
-	615, 616, 697, 0, 0, -2, 0, 0, 672, 0,
-	0, 0, 471, 478, 0, 0, 472, 0, 473, 493,
-	495, 0, 0, 0, 0, 469, 672, 506, 38, 50,
-	51, 0, 0, 57, 263, 0, 328, 0, 0, 304,
-	0, 0, 0, 321, 290, 0, 0, 293, 0, 295,
-	315, 121, 0, 0, 0, 127, 129, 0, 133, 134,
-	0, 151, 0, 0, 140, 0, 175, 144, 145, 146,
-	147, 148, 149, 0, 241, 241, 171, 0, 256, 114,
-	254, 0, 261, 261, 258, 261, 261, 261, 217, 0,
-	218, 219, 220, 221, 0, 239, 0, 199, 0, 0,
-	200, 0, 191, 0, 0, 0, -2, 100, 101, 0,
-	84, 0, 0, 0, 333, 0, 993, 0, 358, 359,
-	360, 361, 362, 363, 364, 993, 0, 345, 346, 347,
-	348, 349, 350, 351, 352, 353, 354, 355, 0, 993,
-	739, 740, 741, 742, 0, 0, 372, 393, 0, 0,
-	409, 410, 686, 0, 24, 506, 0, 449, 656, 0,
-	525, 0, 545, 528, 585, 445, 0, 241, 241, 627,
-	241, 245, 630, 631, 241, 633, 241, 636, 0, 0,
-	0, 0, 655, 0, 0, 0, 647, 600, 653, 0,
-	31, 0, 697, 687, 699, 701, 0, 27, 0, 693,
-	0, 680, 706, 507, 707, 475, 0, 480, 0, 0,
-	0, 483, 0, 680, 37, 54, 55, 56, 326, 329,
-	0, 300, 241, 241, 0, 0, 0, 0, 0, 291,
-	292, 294, 296, 315, 139, 123, 318, 124, 0, 0,
-	0, 152, 0, 0, 0, 143, 0, 0, 167, 0,
-	169, 0, 0, 242, 208, 209, 261, 210, 211, 212,
-	259, 260, 258, 0, 258, 0, 0, 0, 246, 0,
-	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
-	0, 356, 357, 337, 0, 338, 340, 341, 342, 0,
-	320, 336, 412, 413, 668, 456, 586, 529, 589, 624,
-	258, 628, 629, 632, 634, 635, 637, 591, 590, 592,
-	0, 0, 595, 0, 0, 0, 0, 0, 651, 0,
-	32, 0, 702, -2, 0, 0, 0, 44, 35, 0,
-	466, 467, 0, 0, 0, 502, 470, 36, 265, 0,
-	677, 303, 318, 310, 311, 0, 0, 318, 319, 320,
-	315, 297, 0, 0, 0, 136, 0, 141, 0, 176,
-	255, 150, 168, 170, 172, 214, 261, 240, 261, 249,
-	250, 0, 0, 0, 0, 0, 102, 103, 0, 85,
-	86, 87, 88, 89, 0, 0, 0, 0, 0, 321,
-	670, 0, 625, 626, 0, 0, 0, 0, 617, 599,
-	648, 0, 700, 0, -2, 0, 695, 694, 0, 476,
-	503, 504, 505, 465, 287, 266, 0, 268, 0, 283,
-	0, 0, 0, 0, 0, 0, 0, 0, 301, 302,
-	305, 0, 312, 313, 306, 0, 0, 321, 0, 0,
-	173, 135, 153, 0, 0, 177, 229, 230, 244, 247,
-	0, 0, 0, 90, 322, 0, 70, 76, 78, 79,
-	80, 0, 0, 0, 0, 26, 0, 0, 593, 594,
-	596, 597, 0, 0, 0, 0, 690, 27, 0, 468,
-	264, 0, 269, 0, 0, 0, 272, 0, 284, 274,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 131, 0, 0, 138, 142, 508, 0, 0,
-	92, 0, 0, 0, 77, 0, 96, 0, 366, 0,
-	0, 671, 669, 598, 0, 0, 0, 698, -2, 696,
-	288, 0, 270, 275, 273, 276, 285, 286, 277, 278,
-	279, 280, 281, 282, 318, 318, 0, 0, 132, 174,
-	137, 0, 0, 0, 0, 0, 0, 164, 0, 506,
-	0, 0, 0, 68, 0, 323, 91, 69, 334, 99,
-	365, 0, 0, 0, 618, 0, 621, 0, 267, 0,
-	307, 308, 0, 265, 0, 155, 0, 157, 158, 159,
-	160, 161, 162, 163, 0, 265, 0, 506, 265, 0,
-	339, 367, 0, 0, 619, 0, 271, 0, 287, 154,
-	156, 165, 0, 287, 0, 265, 62, 93, 0, 335,
-	0, 289, 0, 314, 0, 61, 509, 63, 0, 0,
-	0, 166, 0, 620, 0, 0, 0, 309, 368, 369,
+	21, 696, 0, 452, 452, 452, 452, 452, 452, 0,
+	-2, 750, 0, 0, 0, 0, -2, 442, 443, 0,
+	445, 446, 1017, 1017, 1017, 1017, 1017, 0, 33, 34,
+	1015, 1, 3, 704, 0, 0, 456, 459, 454, 0,
+	750, 0, 0, 0, 60, 0, 339, 0, 0, 748,
+	748, 0, 0, 748, 95, 0, 0, 0, 751, 0,
+	746, 0, 746, 746, 746, 0, 401, 524, 771, 772,
+	882, 883, 884, 885, 886, 887, 888, 889, 890, 891,
+	892, 893, 894, 895, 896, 897, 898, 899, 900, 901,
+	902, 903, 904, 905, 906, 907, 908, 909, 910, 911,
+	912, 913, 914, 915, 916, 917, 918, 919, 920, 921,
+	922, 923, 924, 925, 926, 927, 928, 929, 930, 931,
+	932, 933, 934, 935, 936, 937, 938, 939, 940, 941,
+	942, 943, 944, 945, 946, 947, 948, 949, 950, 951,
+	952, 953, 954, 955, 956, 957, 958, 959, 960, 961,
+	962, 963, 964, 965, 966, 967, 968, 969, 970, 971,
+	972, 973, 974, 975, 976, 977, 978, 979, 980, 981,
+	982, 983, 984, 985, 986, 987, 988, 989, 990, 991,
+	992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001,
+	1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011,
+	1012, 1013, 1014, 0, 0, 0, 0, 1018, 1018, 1018,
+	1018, 0, 1018, 430, 419, 421, 422, 423, 424, 1018,
+	439, 440, 429, 441, 444, 447, 448, 449, 450, 451,
+	27, 708, 0, 0, 696, 29, 0, 452, 457, 458,
+	462, 460, 461, 453, 0, 470, 474, 0, 534, 0,
+	539, 541, -2, -2, 0, 576, 577, 578, 579, 580,
+	0, 0, 0, 0, 0, 0, 0, 604, 605, 606,
+	607, 681, 682, 683, 684, 685, 686, 687, 688, 543,
+	544, 678, 728, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 669, 0, 635, 635, 635, 635, 635, 635,
+	635, 635, 0, 0, 0, 0, 0, 0, 0, 481,
+	483, 484, 485, 505, 0, 507, 0, 0, 41, 45,
+	0, 984, 732, -2, -2, 0, 0, 769, 770, -2,
+	894, -2, 767, 768, 775, 776, 777, 778, 779, 780,
+	781, 782, 783, 784, 785, 786, 787, 788, 789, 790,
+	791, 792, 793, 794, 795, 796, 797, 798, 799, 800,
+	801, 802, 803, 804, 805, 806, 807, 808, 809, 810,
+	811, 812, 813, 814, 815, 816, 817, 818, 819, 820,
+	821, 822, 823, 824, 825, 826, 827, 828, 829, 830,
+	831, 832, 833, 834, 835, 836, 837, 838, 839, 840,
+	841, 842, 843, 844, 845, 846, 847, 848, 849, 850,
+	851, 852, 853, 854, 855, 856, 857, 858, 859, 860,
+	861, 862, 863, 864, 865, 866, 867, 868, 869, 870,
+	871, 872, 873, 874, 875, 876, 877, 878, 879, 880,
+	881, 0, 108, 0, 0, 115, 116, 117, 118, 119,
+	120, 121, 122, 123, 124, 125, 126, 127, 128, 129,
+	130, 131, 132, 133, 134, 135, 136, 137, 0, 340,
+	341, 0, 96, 0, 0, 0, 0, 0, 0, 105,
+	0, 1018, 0, 0, 0, 0, 0, 0, 0, 400,
+	0, 402, 1018, 1018, 1018, 1018, 1018, 1018, 1018, 1018,
+	411, 1019, 1020, 412, 413, 414, 1018, 1018, 416, 0,
+	431, 0, 425, 28, 1016, 22, 0, 0, 705, 0,
+	697, 698, 701, 704, 27, 459, 0, 464, 463, 455,
+	0, 471, 0, 0, 0, 475, 0, 477, 478, 0,
+	537, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 561, 562, 563, 564, 565, 566, 567, 540, 0,
+	554, 0, 0, 0, 596, 597, 598, 599, 600, 601,
+	0, 466, 27, 0, 574, 0, 0, 0, 0, 0,
+	0, 0, 0, 462, 0, 670, 0, 626, 0, 627,
+	628, 629, 630, 631, 632, 633, 634, 662, 0, 664,
+	665, 666, 667, 668, 204, 205, 206, 207, 208, 209,
+	210, 211, 212, 213, 230, 231, 0, 466, 0, 0,
+	43, 0, 523, 0, 0, 0, 0, 0, 0, 512,
+	0, 0, 515, 0, 0, 0, 0, 506, 0, 0,
+	526, 948, 508, 0, 510, 511, -2, 0, 0, 0,
+	39, 40, 0, 46, 984, 48, 49, 0, 0, 0,
+	285, 741, 742, 743, 739, 348, 0, 113, 279, 275,
+	139, 140, 141, 142, 265, 203, 265, 265, 265, 265,
+	265, 237, 265, 265, 282, 282, 282, 282, 282, 246,
+	247, 248, 249, 250, 251, 252, 0, 0, 222, 265,
+	265, 265, 226, 265, 228, 265, 255, 256, 257, 258,
+	259, 260, 261, 262, 267, 267, 267, 269, 269, 220,
+	221, 114, 0, 0, 99, 0, 1018, 0, 1018, 0,
+	0, 0, 71, 72, 106, 0, 0, 367, 0, 395,
+	747, 0, 1018, 398, 399, 525, 773, 774, 403, 404,
+	405, 406, 407, 408, 409, 410, 415, 418, 432, 426,
+	427, 420, 709, 0, 0, 0, 0, 0, 700, 702,
+	703, 708, 30, 462, 0, 689, 0, 0, 0, 465,
+	25, 535, 536, 538, 555, 0, 557, 559, 476, 472,
+	0, 679, -2, 545, 546, 570, 571, 572, 0, 0,
+	0, 0, 568, 550, 0, 581, 582, 583, 584, 585,
+	586, 587, 588, 589, 590, 591, 592, 595, 646, 647,
+	603, 0, 593, 594, 602, 0, 0, 467, 468, 573,
+	0, 727, 27, 0, 0, 0, 0, 0, 678, 0,
+	0, 0, 0, 676, 673, 0, 0, 636, 663, 0,
+	0, 0, 0, 0, 0, 522, 530, 729, 0, 482,
+	501, 503, 0, 498, 513, 514, 516, 0, 518, 0,
+	520, 521, 486, 487, 488, 0, 0, 0, 0, 509,
+	530, 0, 530, 42, 733, 47, 0, 0, 52, 53,
+	734, 735, 736, 737, 286, 0, 107, 349, 351, 354,
+	355, 356, 109, 110, 111, 112, 0, 342, 344, 0,
+	0, 0, 0, 0, 322, 323, 144, 0, 146, 0,
+	0, 149, 150, 0, 152, 154, 342, 0, 0, 0,
+	0, 0, 143, 0, 281, 277, 276, 202, 0, 282,
+	282, 265, 282, 282, 282, 239, 240, 285, 0, 285,
+	285, 285, 285, 0, 0, 272, 272, 225, 227, 229,
+	214, 0, 267, 216, 217, 218, 0, 219, 0, 0,
+	65, 0, 97, 98, 66, 749, 67, 81, 0, 73,
+	74, 75, 0, 1017, 94, 0, 762, 368, 752, 753,
+	754, 755, 756, 757, 758, 759, 760, 761, 0, 0,
+	394, 1018, 397, 435, 0, 0, 0, 706, 707, 0,
+	699, 23, 0, 744, 745, 690, 691, 479, 556, 558,
+	560, 0, 466, 547, 568, 551, 0, 548, 0, 0,
+	542, 608, 0, 0, 575, -2, 611, 612, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 696, 0, 674,
+	0, 0, 625, 637, 638, 639, 640, 721, 0, 0,
+	-2, 0, 0, 696, 0, 0, 0, 495, 502, 0,
+	0, 496, 0, 497, 517, 519, 0, 0, 0, 0,
+	493, 696, 530, 38, 50, 51, 0, 0, 57, 287,
+	0, 352, 0, 0, 328, 0, 0, 0, 345, 314,
+	0, 0, 317, 0, 319, 339, 145, 0, 0, 0,
+	151, 153, 0, 157, 158, 0, 175, 0, 0, 164,
+	0, 199, 168, 169, 170, 171, 172, 173, 0, 265,
+	265, 195, 0, 280, 138, 278, 0, 285, 285, 282,
+	285, 285, 285, 241, 0, 242, 243, 244, 245, 0,
+	263, 0, 223, 0, 0, 224, 0, 215, 0, 0,
+	0, -2, 100, 101, 0, 84, 0, 0, 0, 357,
+	0, 1017, 0, 382, 383, 384, 385, 386, 387, 388,
+	1017, 0, 369, 370, 371, 372, 373, 374, 375, 376,
+	377, 378, 379, 0, 1017, 763, 764, 765, 766, 0,
+	0, 396, 417, 0, 0, 433, 434, 710, 0, 24,
+	530, 0, 473, 680, 0, 549, 0, 569, 552, 609,
+	469, 0, 265, 265, 651, 265, 269, 654, 655, 265,
+	657, 265, 660, 0, 0, 0, 0, 679, 0, 0,
+	0, 671, 624, 677, 0, 31, 0, 721, 711, 723,
+	725, 0, 27, 0, 717, 0, 704, 730, 531, 731,
+	499, 0, 504, 0, 0, 0, 507, 0, 704, 37,
+	54, 55, 56, 350, 353, 0, 324, 265, 265, 0,
+	0, 0, 0, 0, 315, 316, 318, 320, 339, 163,
+	147, 342, 148, 0, 0, 0, 176, 0, 0, 0,
+	167, 0, 0, 191, 0, 193, 0, 0, 266, 232,
+	233, 285, 234, 235, 236, 283, 284, 282, 0, 282,
+	0, 0, 0, 270, 0, 0, 0, 0, 0, 0,
+	0, 82, 83, 0, 0, 0, 380, 381, 361, 0,
+	362, 364, 365, 366, 0, 344, 360, 436, 437, 692,
+	480, 610, 553, 613, 648, 282, 652, 653, 656, 658,
+	659, 661, 615, 614, 616, 0, 0, 619, 0, 0,
+	0, 0, 0, 675, 0, 32, 0, 726, -2, 0,
+	0, 0, 44, 35, 0, 490, 491, 0, 0, 0,
+	526, 494, 36, 289, 0, 701, 327, 342, 334, 335,
+	0, 0, 342, 343, 344, 339, 321, 0, 0, 0,
+	160, 0, 165, 0, 200, 279, 174, 192, 194, 196,
+	238, 285, 264, 285, 273, 274, 0, 0, 0, 0,
+	0, 102, 103, 0, 85, 86, 87, 88, 89, 0,
+	0, 0, 0, 0, 345, 694, 0, 649, 650, 0,
+	0, 0, 0, 641, 623, 672, 0, 724, 0, -2,
+	0, 719, 718, 0, 500, 527, 528, 529, 489, 311,
+	290, 0, 292, 0, 307, 0, 0, 0, 0, 0,
+	0, 0, 0, 325, 326, 329, 0, 336, 337, 330,
+	0, 0, 345, 0, 0, 197, 159, 177, 0, 0,
+	201, 253, 254, 268, 271, 0, 0, 0, 90, 346,
+	0, 70, 76, 78, 79, 80, 0, 0, 0, 0,
+	26, 0, 0, 617, 618, 620, 621, 0, 0, 0,
+	0, 714, 27, 0, 492, 288, 0, 293, 0, 0,
+	0, 296, 0, 308, 298, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 155, 0, 0,
+	162, 166, 532, 0, 0, 92, 0, 0, 0, 77,
+	0, 96, 0, 390, 0, 0, 695, 693, 622, 0,
+	0, 0, 722, -2, 720, 312, 0, 294, 299, 297,
+	300, 309, 310, 301, 302, 303, 304, 305, 306, 342,
+	342, 0, 0, 156, 198, 161, 0, 0, 0, 0,
+	0, 0, 188, 0, 530, 0, 0, 0, 68, 0,
+	347, 91, 69, 358, 99, 389, 0, 0, 0, 642,
+	0, 645, 0, 291, 0, 331, 332, 0, 289, 0,
+	179, 0, 181, 182, 183, 184, 185, 186, 187, 0,
+	289, 0, 530, 289, 0, 363, 391, 0, 0, 643,
+	0, 295, 0, 311, 178, 180, 189, 0, 311, 0,
+	289, 62, 93, 0, 359, 0, 313, 0, 338, 0,
+	61, 533, 63, 0, 0, 0, 190, 0, 644, 0,
+	0, 0, 333, 392, 393,
 }
 
 var yyTok1 = [...]int{
@@ -3419,29 +3441,29 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:350
+//line sqlparser/parser.y:351
 		{
 			setParseTree(yylex, yyDollar[1].statement)
 		}
 	case 2:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:355
+//line sqlparser/parser.y:356
 		{
 		}
 	case 3:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:356
+//line sqlparser/parser.y:357
 		{
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:360
+//line sqlparser/parser.y:361
 		{
 			yyVAL.statement = yyDollar[1].selStmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:383
+//line sqlparser/parser.y:384
 		{
 			sel := yyDollar[1].selStmt.(*Select)
 			sel.OrderBy = yyDollar[2].orderBy
@@ -3451,55 +3473,55 @@ yydefault:
 		}
 	case 23:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:391
+//line sqlparser/parser.y:392
 		{
 			yyVAL.selStmt = &Union{Type: yyDollar[2].str, Left: yyDollar[1].selStmt, Right: yyDollar[3].selStmt, OrderBy: yyDollar[4].orderBy, Limit: yyDollar[5].limit, Lock: yyDollar[6].str}
 		}
 	case 24:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:395
+//line sqlparser/parser.y:396
 		{
 			yyVAL.selStmt = &Select{Comments: Comments(yyDollar[2].bytes2), Cache: yyDollar[3].str, SelectExprs: SelectExprs{Nextval{Expr: yyDollar[5].expr}}, From: TableExprs{&AliasedTableExpr{Expr: yyDollar[7].tableName}}}
 		}
 	case 25:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:401
+//line sqlparser/parser.y:402
 		{
 			yyVAL.statement = &Stream{Comments: Comments(yyDollar[2].bytes2), SelectExpr: yyDollar[3].selectExpr, Table: yyDollar[5].tableName}
 		}
 	case 26:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:408
+//line sqlparser/parser.y:409
 		{
 			yyVAL.selStmt = &Select{Comments: Comments(yyDollar[2].bytes2), Cache: yyDollar[3].str, Distinct: yyDollar[4].str, Hints: yyDollar[5].str, SelectExprs: yyDollar[6].selectExprs, From: yyDollar[7].tableExprs, Where: NewWhere(WhereStr, yyDollar[8].expr), GroupBy: GroupBy(yyDollar[9].exprs), Having: NewWhere(HavingStr, yyDollar[10].expr)}
 		}
 	case 27:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:414
+//line sqlparser/parser.y:415
 		{
 			yyVAL.selStmt = yyDollar[1].selStmt
 		}
 	case 28:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:418
+//line sqlparser/parser.y:419
 		{
 			yyVAL.selStmt = &ParenSelect{Select: yyDollar[2].selStmt}
 		}
 	case 29:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:424
+//line sqlparser/parser.y:425
 		{
 			yyVAL.selStmt = yyDollar[1].selStmt
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:428
+//line sqlparser/parser.y:429
 		{
 			yyVAL.selStmt = &ParenSelect{Select: yyDollar[2].selStmt}
 		}
 	case 31:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:435
+//line sqlparser/parser.y:436
 		{
 			// insert_data returns a *Insert pre-filled with Columns & Values
 			ins := yyDollar[6].ins
@@ -3513,7 +3535,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:447
+//line sqlparser/parser.y:448
 		{
 			cols := make(Columns, 0, len(yyDollar[7].updateExprs))
 			vals := make(ValTuple, 0, len(yyDollar[8].updateExprs))
@@ -3525,174 +3547,174 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:459
+//line sqlparser/parser.y:460
 		{
 			yyVAL.str = InsertStr
 		}
 	case 34:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:463
+//line sqlparser/parser.y:464
 		{
 			yyVAL.str = ReplaceStr
 		}
 	case 35:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:469
+//line sqlparser/parser.y:470
 		{
 			yyVAL.statement = &Update{Comments: Comments(yyDollar[2].bytes2), TableExprs: yyDollar[3].tableExprs, Exprs: yyDollar[5].updateExprs, Where: NewWhere(WhereStr, yyDollar[6].expr), OrderBy: yyDollar[7].orderBy, Limit: yyDollar[8].limit}
 		}
 	case 36:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:475
+//line sqlparser/parser.y:476
 		{
 			yyVAL.statement = &Delete{Comments: Comments(yyDollar[2].bytes2), TableExprs: TableExprs{&AliasedTableExpr{Expr: yyDollar[4].tableName}}, Partitions: yyDollar[5].partitions, Where: NewWhere(WhereStr, yyDollar[6].expr), OrderBy: yyDollar[7].orderBy, Limit: yyDollar[8].limit}
 		}
 	case 37:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:479
+//line sqlparser/parser.y:480
 		{
 			yyVAL.statement = &Delete{Comments: Comments(yyDollar[2].bytes2), Targets: yyDollar[4].tableNames, TableExprs: yyDollar[6].tableExprs, Where: NewWhere(WhereStr, yyDollar[7].expr)}
 		}
 	case 38:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:483
+//line sqlparser/parser.y:484
 		{
 			yyVAL.statement = &Delete{Comments: Comments(yyDollar[2].bytes2), Targets: yyDollar[3].tableNames, TableExprs: yyDollar[5].tableExprs, Where: NewWhere(WhereStr, yyDollar[6].expr)}
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:488
+//line sqlparser/parser.y:489
 		{
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:489
+//line sqlparser/parser.y:490
 		{
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:493
+//line sqlparser/parser.y:494
 		{
 			yyVAL.tableNames = TableNames{yyDollar[1].tableName}
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:497
+//line sqlparser/parser.y:498
 		{
 			yyVAL.tableNames = append(yyVAL.tableNames, yyDollar[3].tableName)
 		}
 	case 43:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:502
+//line sqlparser/parser.y:503
 		{
 			yyVAL.partitions = nil
 		}
 	case 44:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:506
+//line sqlparser/parser.y:507
 		{
 			yyVAL.partitions = yyDollar[3].partitions
 		}
 	case 45:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:512
+//line sqlparser/parser.y:513
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Exprs: yyDollar[3].setExprs}
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:516
+//line sqlparser/parser.y:517
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Scope: yyDollar[3].str, Exprs: yyDollar[4].setExprs}
 		}
 	case 47:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:520
+//line sqlparser/parser.y:521
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Scope: yyDollar[3].str, Exprs: yyDollar[5].setExprs}
 		}
 	case 48:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:524
+//line sqlparser/parser.y:525
 		{
 			yyVAL.statement = &Set{Comments: Comments(yyDollar[2].bytes2), Exprs: yyDollar[4].setExprs}
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:530
+//line sqlparser/parser.y:531
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
 	case 50:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:534
+//line sqlparser/parser.y:535
 		{
 			yyVAL.setExprs = append(yyVAL.setExprs, yyDollar[3].setExpr)
 		}
 	case 51:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:540
+//line sqlparser/parser.y:541
 		{
 			yyVAL.setExpr = yyDollar[3].setExpr
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:544
+//line sqlparser/parser.y:545
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_read_only"), Expr: NewIntVal([]byte("0"))}
 		}
 	case 53:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:548
+//line sqlparser/parser.y:549
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_read_only"), Expr: NewIntVal([]byte("1"))}
 		}
 	case 54:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:554
+//line sqlparser/parser.y:555
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("repeatable read"))}
 		}
 	case 55:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:558
+//line sqlparser/parser.y:559
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("read committed"))}
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:562
+//line sqlparser/parser.y:563
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("read uncommitted"))}
 		}
 	case 57:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:566
+//line sqlparser/parser.y:567
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent("tx_isolation"), Expr: NewStrVal([]byte("serializable"))}
 		}
 	case 58:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:572
+//line sqlparser/parser.y:573
 		{
 			yyVAL.str = SessionStr
 		}
 	case 59:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:576
+//line sqlparser/parser.y:577
 		{
 			yyVAL.str = GlobalStr
 		}
 	case 60:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:582
+//line sqlparser/parser.y:583
 		{
 			yyDollar[1].ddl.TableSpec = yyDollar[2].TableSpec
 			yyVAL.statement = yyDollar[1].ddl
 		}
 	case 61:
 		yyDollar = yyS[yypt-14 : yypt+1]
-//line sqlparser/parser.y:587
+//line sqlparser/parser.y:588
 		{
 			yyVAL.statement = &DDL{
 				Action:  CreateIndexStr,
@@ -3713,7 +3735,7 @@ yydefault:
 		}
 	case 62:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:607
+//line sqlparser/parser.y:608
 		{
 			yyVAL.statement = &DDL{
 				Action:  CreateIndexStr,
@@ -3730,7 +3752,7 @@ yydefault:
 		}
 	case 63:
 		yyDollar = yyS[yypt-14 : yypt+1]
-//line sqlparser/parser.y:623
+//line sqlparser/parser.y:624
 		{
 			yyVAL.statement = &DDL{
 				Action:  CreateIndexStr,
@@ -3747,7 +3769,7 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:638
+//line sqlparser/parser.y:639
 		{
 			yyVAL.statement = &DDL{Action: CreateViewStr, View: &View{
 				Action:     CreateViewStr,
@@ -3757,7 +3779,7 @@ yydefault:
 		}
 	case 65:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:646
+//line sqlparser/parser.y:647
 		{
 			yyVAL.statement = &DDL{Action: CreateVindexStr, VindexSpec: &VindexSpec{
 				Name:   yyDollar[3].colIdent,
@@ -3767,19 +3789,19 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:654
+//line sqlparser/parser.y:655
 		{
 			yyVAL.statement = &DBDDL{Action: CreateStr, DBName: string(yyDollar[4].bytes)}
 		}
 	case 67:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:658
+//line sqlparser/parser.y:659
 		{
 			yyVAL.statement = &DBDDL{Action: CreateStr, DBName: string(yyDollar[4].bytes)}
 		}
 	case 68:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:662
+//line sqlparser/parser.y:663
 		{
 			yyVAL.statement = &DDL{Action: CreatePolicyStr, Table: yyDollar[5].tableName, Policy: &Policy{
 				Name:       yyDollar[3].colIdent,
@@ -3792,7 +3814,7 @@ yydefault:
 		}
 	case 69:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:673
+//line sqlparser/parser.y:674
 		{
 			yyVAL.statement = &DDL{Action: CreateTriggerStr, Trigger: &Trigger{
 				Name:      yyDollar[3].colIdent,
@@ -3804,7 +3826,7 @@ yydefault:
 		}
 	case 70:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:683
+//line sqlparser/parser.y:684
 		{
 			yyVAL.statement = &DDL{Action: CreateTriggerStr, Trigger: &Trigger{
 				Name:      yyDollar[3].colIdent,
@@ -3816,266 +3838,272 @@ yydefault:
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:695
+//line sqlparser/parser.y:696
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 72:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:699
+//line sqlparser/parser.y:700
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:705
+//line sqlparser/parser.y:706
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 74:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:709
+//line sqlparser/parser.y:710
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 75:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:713
+//line sqlparser/parser.y:714
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 76:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:719
+//line sqlparser/parser.y:720
 		{
 			yyVAL.triggerBody = []Statement{yyDollar[1].statement}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:723
+//line sqlparser/parser.y:724
 		{
 			yyVAL.triggerBody = append(yyVAL.triggerBody, yyDollar[2].statement)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:729
+//line sqlparser/parser.y:730
 		{
 			yyVAL.statement = yyDollar[1].statement
 		}
 	case 81:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:736
+//line sqlparser/parser.y:737
 		{
 			yyVAL.bytes = nil
 		}
 	case 82:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:740
+//line sqlparser/parser.y:741
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 83:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:744
+//line sqlparser/parser.y:745
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:749
+//line sqlparser/parser.y:750
 		{
 			yyVAL.bytes = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:753
+//line sqlparser/parser.y:754
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 86:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:757
+//line sqlparser/parser.y:758
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 87:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:761
+//line sqlparser/parser.y:762
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 88:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:765
+//line sqlparser/parser.y:766
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 89:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:769
+//line sqlparser/parser.y:770
 		{
 			yyVAL.bytes = yyDollar[2].bytes
 		}
 	case 90:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:774
+//line sqlparser/parser.y:775
 		{
 			yyVAL.expr = nil
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:778
+//line sqlparser/parser.y:779
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
 	case 92:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:783
+//line sqlparser/parser.y:784
 		{
 			yyVAL.expr = nil
 		}
 	case 93:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:787
+//line sqlparser/parser.y:788
 		{
 			yyVAL.expr = yyDollar[3].expr
 		}
 	case 94:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:792
+//line sqlparser/parser.y:793
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:796
+//line sqlparser/parser.y:797
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 96:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:801
+//line sqlparser/parser.y:802
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
 	case 97:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:805
+//line sqlparser/parser.y:806
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
 	case 98:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:811
+//line sqlparser/parser.y:812
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 99:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:816
+//line sqlparser/parser.y:817
 		{
 			var v []VindexParam
 			yyVAL.vindexParams = v
 		}
 	case 100:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:821
+//line sqlparser/parser.y:822
 		{
 			yyVAL.vindexParams = yyDollar[2].vindexParams
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:827
+//line sqlparser/parser.y:828
 		{
 			yyVAL.vindexParams = make([]VindexParam, 0, 4)
 			yyVAL.vindexParams = append(yyVAL.vindexParams, yyDollar[1].vindexParam)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:832
+//line sqlparser/parser.y:833
 		{
 			yyVAL.vindexParams = append(yyVAL.vindexParams, yyDollar[3].vindexParam)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:838
+//line sqlparser/parser.y:839
 		{
 			yyVAL.vindexParam = VindexParam{Key: yyDollar[1].colIdent, Val: yyDollar[3].str}
 		}
 	case 104:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:843
+//line sqlparser/parser.y:844
 		{
 			yyVAL.bytes = nil
 		}
 	case 105:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:847
+//line sqlparser/parser.y:848
 		{
 			yyVAL.bytes = nil
 		}
 	case 106:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:853
+//line sqlparser/parser.y:854
 		{
 			yyVAL.ddl = &DDL{Action: CreateStr, NewName: yyDollar[4].tableName}
 			setDDL(yylex, yyVAL.ddl)
 		}
 	case 107:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:860
+//line sqlparser/parser.y:861
 		{
 			yyVAL.TableSpec = yyDollar[2].TableSpec
 			yyVAL.TableSpec.Options = yyDollar[4].str
 		}
 	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:867
+//line sqlparser/parser.y:868
 		{
 			yyVAL.TableSpec = &TableSpec{}
 			yyVAL.TableSpec.AddColumn(yyDollar[1].columnDefinition)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:872
+//line sqlparser/parser.y:873
 		{
 			yyVAL.TableSpec.AddColumn(yyDollar[3].columnDefinition)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:876
+//line sqlparser/parser.y:877
 		{
 			yyVAL.TableSpec.AddIndex(yyDollar[3].indexDefinition)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:880
+//line sqlparser/parser.y:881
 		{
 			yyVAL.TableSpec.AddForeignKey(yyDollar[3].foreignKeyDefinition)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:884
+//line sqlparser/parser.y:885
 		{
 			yyVAL.TableSpec.AddIndex(yyDollar[3].indexDefinition)
 		}
 	case 113:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:890
+//line sqlparser/parser.y:891
 		{
 			yyVAL.columnDefinition = &ColumnDefinition{Name: NewColIdent(string(yyDollar[1].bytes)), Type: yyDollar[2].columnType}
 		}
 	case 114:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:895
+		{
+			yyVAL.columnDefinition = &ColumnDefinition{Name: NewColIdent(string(yyDollar[1].bytes)), Type: yyDollar[2].columnType}
+		}
+	case 138:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:927
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 			yyVAL.columnType.Unsigned = yyDollar[2].boolVal
 			yyVAL.columnType.Zerofill = yyDollar[3].boolVal
 		}
-	case 119:
+	case 143:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:906
+//line sqlparser/parser.y:938
 		{
 			yyDollar[1].columnType.NotNull = nil
 			yyDollar[1].columnType.Default = nil
@@ -4087,1204 +4115,1204 @@ yydefault:
 			yyDollar[1].columnType.Array = yyDollar[2].boolVal
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 120:
+	case 144:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:918
+//line sqlparser/parser.y:950
 		{
 			yyDollar[1].columnType.NotNull = NewBoolVal(false)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 121:
+	case 145:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:923
+//line sqlparser/parser.y:955
 		{
 			yyDollar[1].columnType.NotNull = NewBoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 122:
+	case 146:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:928
+//line sqlparser/parser.y:960
 		{
 			yyDollar[1].columnType.Default = &DefaultDefinition{Value: yyDollar[2].optVal}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 123:
+	case 147:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:933
+//line sqlparser/parser.y:965
 		{
 			yyDollar[1].columnType.Default = &DefaultDefinition{ConstraintName: yyDollar[3].colIdent, Value: yyDollar[4].optVal}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 124:
+	case 148:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:938
+//line sqlparser/parser.y:970
 		{
 			yyDollar[1].columnType.OnUpdate = yyDollar[4].optVal
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 125:
+	case 149:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:943
+//line sqlparser/parser.y:975
 		{
 			yyDollar[1].columnType.Autoincrement = BoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 126:
+	case 150:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:948
+//line sqlparser/parser.y:980
 		{
 			yyDollar[1].columnType.Autoincrement = BoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 127:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:953
+//line sqlparser/parser.y:985
 		{
 			yyDollar[1].columnType.KeyOpt = colKeyPrimary
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 128:
+	case 152:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:958
+//line sqlparser/parser.y:990
 		{
 			yyDollar[1].columnType.KeyOpt = colKey
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 129:
+	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:963
+//line sqlparser/parser.y:995
 		{
 			yyDollar[1].columnType.KeyOpt = colKeyUniqueKey
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 130:
+	case 154:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:968
+//line sqlparser/parser.y:1000
 		{
 			yyDollar[1].columnType.KeyOpt = colKeyUnique
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 131:
+	case 155:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:973
+//line sqlparser/parser.y:1005
 		{
 			yyDollar[1].columnType.Check = &CheckDefinition{Where: *NewWhere(WhereStr, yyDollar[5].expr), NotForReplication: bool(yyDollar[3].boolVal)}
 			yyDollar[1].columnType.CheckNoInherit = yyDollar[7].boolVal
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 132:
+	case 156:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:979
+//line sqlparser/parser.y:1011
 		{
 			yyDollar[1].columnType.Check = &CheckDefinition{Where: *NewWhere(WhereStr, yyDollar[7].expr), ConstraintName: yyDollar[3].colIdent, NotForReplication: bool(yyDollar[5].boolVal)}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 133:
+	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:984
+//line sqlparser/parser.y:1016
 		{
 			yyDollar[1].columnType.Comment = NewStrVal(yyDollar[3].bytes)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 134:
+	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:989
+//line sqlparser/parser.y:1021
 		{
 			yyDollar[1].columnType.References = yyDollar[3].tableIdent.v
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 135:
+	case 159:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:994
+//line sqlparser/parser.y:1026
 		{
 			yyDollar[1].columnType.References = yyDollar[3].tableIdent.v
 			yyDollar[1].columnType.ReferenceNames = yyDollar[5].columns
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 136:
+	case 160:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1000
+//line sqlparser/parser.y:1032
 		{
 			yyDollar[1].columnType.Identity = &IdentityOpt{Behavior: yyDollar[3].str}
 			yyDollar[1].columnType.NotNull = NewBoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 137:
+	case 161:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1006
+//line sqlparser/parser.y:1038
 		{
 			yyDollar[1].columnType.Identity = &IdentityOpt{Behavior: yyDollar[3].str, Sequence: yyDollar[7].sequence}
 			yyDollar[1].columnType.NotNull = NewBoolVal(true)
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 138:
+	case 162:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1012
+//line sqlparser/parser.y:1044
 		{
 			yyDollar[1].columnType.Identity = &IdentityOpt{Sequence: &Sequence{StartWith: NewIntVal(yyDollar[4].bytes), IncrementBy: NewIntVal(yyDollar[6].bytes)}, NotForReplication: false}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 139:
+	case 163:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1018
+//line sqlparser/parser.y:1050
 		{
 			yyDollar[1].columnType.Identity.NotForReplication = true
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 140:
+	case 164:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1025
+//line sqlparser/parser.y:1057
 		{
 			yyVAL.optVal = yyDollar[2].optVal
 		}
-	case 141:
+	case 165:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1029
+//line sqlparser/parser.y:1061
 		{
 			yyVAL.optVal = yyDollar[3].optVal
 		}
-	case 142:
+	case 166:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1033
+//line sqlparser/parser.y:1065
 		{
 			yyVAL.optVal = yyDollar[4].optVal
 		}
-	case 143:
+	case 167:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1039
+//line sqlparser/parser.y:1071
 		{
 			yyVAL.optVal = NewStrVal(yyDollar[1].bytes)
 		}
-	case 144:
+	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1043
+//line sqlparser/parser.y:1075
 		{
 			yyVAL.optVal = NewIntVal(yyDollar[1].bytes)
 		}
-	case 145:
+	case 169:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1047
+//line sqlparser/parser.y:1079
 		{
 			yyVAL.optVal = NewFloatVal(yyDollar[1].bytes)
 		}
-	case 146:
+	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1051
+//line sqlparser/parser.y:1083
 		{
 			yyVAL.optVal = NewValArg(yyDollar[1].bytes)
 		}
-	case 147:
+	case 171:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1055
+//line sqlparser/parser.y:1087
 		{
 			yyVAL.optVal = yyDollar[1].optVal
 		}
-	case 148:
+	case 172:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1059
+//line sqlparser/parser.y:1091
 		{
 			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
 		}
-	case 149:
+	case 173:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1063
+//line sqlparser/parser.y:1095
 		{
 			yyVAL.optVal = NewBoolSQLVal(bool(yyDollar[1].boolVal))
 		}
-	case 150:
+	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1067
+//line sqlparser/parser.y:1099
 		{
 			yyVAL.optVal = NewValArg([]byte("now()"))
 		}
-	case 151:
+	case 175:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1073
+//line sqlparser/parser.y:1105
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 152:
+	case 176:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1077
+//line sqlparser/parser.y:1109
 		{
 			yyVAL.str = string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)
 		}
-	case 153:
+	case 177:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1082
+//line sqlparser/parser.y:1114
 		{
 			yyVAL.sequence = &Sequence{}
 		}
-	case 154:
+	case 178:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1086
+//line sqlparser/parser.y:1118
 		{
 			yyDollar[1].sequence.StartWith = NewIntVal(yyDollar[4].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 155:
+	case 179:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1091
+//line sqlparser/parser.y:1123
 		{
 			yyDollar[1].sequence.StartWith = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 156:
+	case 180:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1096
+//line sqlparser/parser.y:1128
 		{
 			yyDollar[1].sequence.IncrementBy = NewIntVal(yyDollar[4].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 157:
+	case 181:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1101
+//line sqlparser/parser.y:1133
 		{
 			yyDollar[1].sequence.IncrementBy = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 158:
+	case 182:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1106
+//line sqlparser/parser.y:1138
 		{
 			yyDollar[1].sequence.MinValue = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 159:
+	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1111
+//line sqlparser/parser.y:1143
 		{
 			yyDollar[1].sequence.MaxValue = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 160:
+	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1116
+//line sqlparser/parser.y:1148
 		{
 			yyDollar[1].sequence.Cache = NewIntVal(yyDollar[3].bytes)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 161:
+	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1121
+//line sqlparser/parser.y:1153
 		{
 			yyDollar[1].sequence.NoMinValue = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 162:
+	case 186:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1126
+//line sqlparser/parser.y:1158
 		{
 			yyDollar[1].sequence.NoMaxValue = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 163:
+	case 187:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1131
+//line sqlparser/parser.y:1163
 		{
 			yyDollar[1].sequence.NoCycle = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 164:
+	case 188:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1136
+//line sqlparser/parser.y:1168
 		{
 			yyDollar[1].sequence.Cycle = NewBoolVal(true)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 165:
+	case 189:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1141
+//line sqlparser/parser.y:1173
 		{
 			yyDollar[1].sequence.OwnedBy = "NONE"
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 166:
+	case 190:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1146
+//line sqlparser/parser.y:1178
 		{
 			yyDollar[1].sequence.OwnedBy = string(yyDollar[4].tableIdent.v) + "." + string(yyDollar[6].colIdent.val)
 			yyVAL.sequence = yyDollar[1].sequence
 		}
-	case 167:
+	case 191:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1153
+//line sqlparser/parser.y:1185
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, yyDollar[2].optVal)
 		}
-	case 168:
+	case 192:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1157
+//line sqlparser/parser.y:1189
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
-	case 169:
+	case 193:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1161
+//line sqlparser/parser.y:1193
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, yyDollar[2].optVal)
 		}
-	case 170:
+	case 194:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1165
+//line sqlparser/parser.y:1197
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
-	case 171:
+	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1169
+//line sqlparser/parser.y:1201
 		{
 			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
 		}
-	case 172:
+	case 196:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1173
+//line sqlparser/parser.y:1205
 		{
 			yyVAL.optVal = NewValArgWithOpt([]byte("getdate()"), nil)
 		}
-	case 173:
+	case 197:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1178
+//line sqlparser/parser.y:1210
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 174:
+	case 198:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1182
+//line sqlparser/parser.y:1214
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 175:
+	case 199:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1187
+//line sqlparser/parser.y:1219
 		{
 			yyVAL.bytes = nil
 		}
-	case 178:
+	case 202:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1195
+//line sqlparser/parser.y:1227
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 			yyVAL.columnType.Length = yyDollar[2].optVal
 		}
-	case 179:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1200
+//line sqlparser/parser.y:1232
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 		}
-	case 180:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1206
+//line sqlparser/parser.y:1238
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 181:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1210
+//line sqlparser/parser.y:1242
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 182:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1214
+//line sqlparser/parser.y:1246
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 183:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1218
+//line sqlparser/parser.y:1250
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 184:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1222
+//line sqlparser/parser.y:1254
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 185:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1226
+//line sqlparser/parser.y:1258
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 186:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1230
+//line sqlparser/parser.y:1262
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 187:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1234
+//line sqlparser/parser.y:1266
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 188:
+	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1238
+//line sqlparser/parser.y:1270
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 189:
+	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1242
+//line sqlparser/parser.y:1274
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 190:
+	case 214:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1248
+//line sqlparser/parser.y:1280
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 191:
+	case 215:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1254
+//line sqlparser/parser.y:1286
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 			yyVAL.columnType.Length = yyDollar[3].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[3].LengthScaleOption.Scale
 		}
-	case 192:
+	case 216:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1260
+//line sqlparser/parser.y:1292
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 193:
+	case 217:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1266
+//line sqlparser/parser.y:1298
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 194:
+	case 218:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1272
+//line sqlparser/parser.y:1304
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 195:
+	case 219:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1278
+//line sqlparser/parser.y:1310
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 196:
+	case 220:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1284
+//line sqlparser/parser.y:1316
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 197:
+	case 221:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1288
+//line sqlparser/parser.y:1320
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 198:
+	case 222:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1294
+//line sqlparser/parser.y:1326
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 199:
+	case 223:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1298
+//line sqlparser/parser.y:1330
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
-	case 200:
+	case 224:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1302
+//line sqlparser/parser.y:1334
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
-	case 201:
+	case 225:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1306
+//line sqlparser/parser.y:1338
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 202:
+	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1310
+//line sqlparser/parser.y:1342
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 203:
+	case 227:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1314
+//line sqlparser/parser.y:1346
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 204:
+	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1318
+//line sqlparser/parser.y:1350
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 205:
+	case 229:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1322
+//line sqlparser/parser.y:1354
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 206:
+	case 230:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1328
+//line sqlparser/parser.y:1360
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 207:
+	case 231:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1332
+//line sqlparser/parser.y:1364
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 208:
+	case 232:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1338
+//line sqlparser/parser.y:1370
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
-	case 209:
+	case 233:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1342
+//line sqlparser/parser.y:1374
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
-	case 210:
+	case 234:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1346
+//line sqlparser/parser.y:1378
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
-	case 211:
+	case 235:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1350
+//line sqlparser/parser.y:1382
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
-	case 212:
+	case 236:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1354
+//line sqlparser/parser.y:1386
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
-	case 213:
+	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1358
+//line sqlparser/parser.y:1390
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 214:
+	case 238:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1362
+//line sqlparser/parser.y:1394
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Length: yyDollar[3].optVal, Charset: yyDollar[4].str, Collate: yyDollar[5].str}
 		}
-	case 215:
+	case 239:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1366
+//line sqlparser/parser.y:1398
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 216:
+	case 240:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1370
+//line sqlparser/parser.y:1402
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 217:
+	case 241:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1374
+//line sqlparser/parser.y:1406
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
-	case 218:
+	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1378
+//line sqlparser/parser.y:1410
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
-	case 219:
+	case 243:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1382
+//line sqlparser/parser.y:1414
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
-	case 220:
+	case 244:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1386
+//line sqlparser/parser.y:1418
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
-	case 221:
+	case 245:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1390
+//line sqlparser/parser.y:1422
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
-	case 222:
+	case 246:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1394
+//line sqlparser/parser.y:1426
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 223:
+	case 247:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1398
+//line sqlparser/parser.y:1430
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 224:
+	case 248:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1402
+//line sqlparser/parser.y:1434
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 225:
+	case 249:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1406
+//line sqlparser/parser.y:1438
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 226:
+	case 250:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1410
+//line sqlparser/parser.y:1442
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 227:
+	case 251:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1414
+//line sqlparser/parser.y:1446
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 228:
+	case 252:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1418
+//line sqlparser/parser.y:1450
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 229:
+	case 253:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1422
+//line sqlparser/parser.y:1454
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
-	case 230:
+	case 254:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1427
+//line sqlparser/parser.y:1459
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
-	case 231:
+	case 255:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1433
+//line sqlparser/parser.y:1465
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 232:
+	case 256:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1437
+//line sqlparser/parser.y:1469
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 233:
+	case 257:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1441
+//line sqlparser/parser.y:1473
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 234:
+	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1445
+//line sqlparser/parser.y:1477
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 235:
+	case 259:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1449
+//line sqlparser/parser.y:1481
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 236:
+	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1453
+//line sqlparser/parser.y:1485
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 237:
+	case 261:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1457
+//line sqlparser/parser.y:1489
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 238:
+	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1461
+//line sqlparser/parser.y:1493
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 239:
+	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1467
+//line sqlparser/parser.y:1499
 		{
 			yyVAL.strs = make([]string, 0, 4)
 			yyVAL.strs = append(yyVAL.strs, String(NewStrVal(yyDollar[1].bytes)))
 		}
-	case 240:
+	case 264:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1472
+//line sqlparser/parser.y:1504
 		{
 			yyVAL.strs = append(yyDollar[1].strs, String(NewStrVal(yyDollar[3].bytes)))
 		}
-	case 241:
+	case 265:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1477
+//line sqlparser/parser.y:1509
 		{
 			yyVAL.optVal = nil
 		}
-	case 242:
+	case 266:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1481
+//line sqlparser/parser.y:1513
 		{
 			yyVAL.optVal = NewIntVal(yyDollar[2].bytes)
 		}
-	case 243:
+	case 267:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1486
+//line sqlparser/parser.y:1518
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
-	case 244:
+	case 268:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1490
+//line sqlparser/parser.y:1522
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 				Scale:  NewIntVal(yyDollar[4].bytes),
 			}
 		}
-	case 245:
+	case 269:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1498
+//line sqlparser/parser.y:1530
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
-	case 246:
+	case 270:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1502
+//line sqlparser/parser.y:1534
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 			}
 		}
-	case 247:
+	case 271:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1508
+//line sqlparser/parser.y:1540
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 				Scale:  NewIntVal(yyDollar[4].bytes),
 			}
 		}
-	case 248:
+	case 272:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1516
+//line sqlparser/parser.y:1548
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 249:
+	case 273:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1520
+//line sqlparser/parser.y:1552
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 250:
+	case 274:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1524
+//line sqlparser/parser.y:1556
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 251:
+	case 275:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1529
+//line sqlparser/parser.y:1561
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 252:
+	case 276:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1533
+//line sqlparser/parser.y:1565
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 253:
+	case 277:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1538
+//line sqlparser/parser.y:1570
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 254:
+	case 278:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1542
+//line sqlparser/parser.y:1574
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 255:
+	case 279:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1547
+//line sqlparser/parser.y:1579
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 256:
+	case 280:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1551
+//line sqlparser/parser.y:1583
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 257:
+	case 281:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1555
+//line sqlparser/parser.y:1587
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 258:
+	case 282:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1560
+//line sqlparser/parser.y:1592
 		{
 			yyVAL.str = ""
 		}
-	case 259:
+	case 283:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1564
+//line sqlparser/parser.y:1596
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
-	case 260:
+	case 284:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1568
+//line sqlparser/parser.y:1600
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
-	case 261:
+	case 285:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1573
+//line sqlparser/parser.y:1605
 		{
 			yyVAL.str = ""
 		}
-	case 262:
+	case 286:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1577
+//line sqlparser/parser.y:1609
 		{
 			yyVAL.str = string(yyDollar[1].bytes) // Set pseudo collation "binary" for BINARY attribute (deprecated in future MySQL versions)
 		}
-	case 263:
+	case 287:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1581
+//line sqlparser/parser.y:1613
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 264:
+	case 288:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1587
+//line sqlparser/parser.y:1619
 		{
 			yyVAL.indexDefinition = &IndexDefinition{Info: yyDollar[1].indexInfo, Columns: yyDollar[3].indexColumns, Options: yyDollar[5].indexOptions, Partition: yyDollar[6].indexPartition}
 		}
-	case 265:
+	case 289:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1592
+//line sqlparser/parser.y:1624
 		{
 			yyVAL.indexOptions = []*IndexOption{}
 		}
-	case 266:
+	case 290:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1596
+//line sqlparser/parser.y:1628
 		{
 			yyVAL.indexOptions = yyDollar[1].indexOptions
 		}
-	case 267:
+	case 291:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1600
+//line sqlparser/parser.y:1632
 		{
 			yyVAL.indexOptions = yyDollar[3].indexOptions
 		}
-	case 268:
+	case 292:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1606
+//line sqlparser/parser.y:1638
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
-	case 269:
+	case 293:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1610
+//line sqlparser/parser.y:1642
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[2].indexOption)
 		}
-	case 270:
+	case 294:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1616
+//line sqlparser/parser.y:1648
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
-	case 271:
+	case 295:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1620
+//line sqlparser/parser.y:1652
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[3].indexOption)
 		}
-	case 272:
+	case 296:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1626
+//line sqlparser/parser.y:1658
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Using: string(yyDollar[2].bytes)}
 		}
-	case 273:
+	case 297:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1630
+//line sqlparser/parser.y:1662
 		{
 			// should not be string
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
-	case 274:
+	case 298:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1635
+//line sqlparser/parser.y:1667
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewStrVal(yyDollar[2].bytes)}
 		}
-	case 275:
+	case 299:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1639
+//line sqlparser/parser.y:1671
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[2].bytes), Value: NewStrVal([]byte(yyDollar[3].colIdent.String()))}
 		}
-	case 276:
+	case 300:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1643
+//line sqlparser/parser.y:1675
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 277:
+	case 301:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1647
+//line sqlparser/parser.y:1679
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
-	case 278:
+	case 302:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1651
+//line sqlparser/parser.y:1683
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 279:
+	case 303:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1655
+//line sqlparser/parser.y:1687
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 280:
+	case 304:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1659
+//line sqlparser/parser.y:1691
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 281:
+	case 305:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1663
+//line sqlparser/parser.y:1695
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 282:
+	case 306:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1667
+//line sqlparser/parser.y:1699
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 283:
+	case 307:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1673
+//line sqlparser/parser.y:1705
 		{
 			yyVAL.str = ""
 		}
-	case 284:
+	case 308:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1677
+//line sqlparser/parser.y:1709
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 285:
+	case 309:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1683
+//line sqlparser/parser.y:1715
 		{
 			yyVAL.optVal = NewBoolSQLVal(true)
 		}
-	case 286:
+	case 310:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1687
+//line sqlparser/parser.y:1719
 		{
 			yyVAL.optVal = NewBoolSQLVal(false)
 		}
-	case 287:
+	case 311:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1693
+//line sqlparser/parser.y:1725
 		{
 			yyVAL.indexPartition = nil
 		}
-	case 288:
+	case 312:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1697
+//line sqlparser/parser.y:1729
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String()}
 		}
-	case 289:
+	case 313:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1701
+//line sqlparser/parser.y:1733
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String(), Column: yyDollar[4].colIdent.String()}
 		}
-	case 290:
+	case 314:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1707
+//line sqlparser/parser.y:1739
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
 		}
-	case 291:
+	case 315:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1711
+//line sqlparser/parser.y:1743
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Spatial: true, Unique: false}
 		}
-	case 292:
+	case 316:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1715
+//line sqlparser/parser.y:1747
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Fulltext: true}
 		}
-	case 293:
+	case 317:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1719
+//line sqlparser/parser.y:1751
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Fulltext: true}
 		}
-	case 294:
+	case 318:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1723
+//line sqlparser/parser.y:1755
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Unique: true}
 		}
-	case 295:
+	case 319:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1727
+//line sqlparser/parser.y:1759
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true}
 		}
-	case 296:
+	case 320:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1731
+//line sqlparser/parser.y:1763
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: yyDollar[3].str == "clustered"}
 		}
-	case 297:
+	case 321:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1735
+//line sqlparser/parser.y:1767
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: yyDollar[4].str == "clustered"}
 		}
-	case 298:
+	case 322:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1741
+//line sqlparser/parser.y:1773
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 299:
+	case 323:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1745
+//line sqlparser/parser.y:1777
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 300:
+	case 324:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1751
+//line sqlparser/parser.y:1783
 		{
 			yyVAL.indexColumns = []IndexColumn{yyDollar[1].indexColumn}
 		}
-	case 301:
+	case 325:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1755
+//line sqlparser/parser.y:1787
 		{
 			yyVAL.indexColumns = append(yyVAL.indexColumns, yyDollar[3].indexColumn)
 		}
-	case 302:
+	case 326:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1761
+//line sqlparser/parser.y:1793
 		{
 			yyVAL.indexColumn = IndexColumn{Column: yyDollar[1].colIdent, Length: yyDollar[2].optVal, Direction: yyDollar[3].str}
 		}
-	case 303:
+	case 327:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1766
+//line sqlparser/parser.y:1798
 		{
 			yyVAL.indexColumn = IndexColumn{Column: NewColIdent(string(yyDollar[1].bytes)), Length: yyDollar[2].optVal}
 		}
-	case 304:
+	case 328:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1772
+//line sqlparser/parser.y:1804
 		{
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[2].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 305:
+	case 329:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1777
+//line sqlparser/parser.y:1809
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[5].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 306:
+	case 330:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1784
+//line sqlparser/parser.y:1816
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[5].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 307:
+	case 331:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1791
+//line sqlparser/parser.y:1823
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[8].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 308:
+	case 332:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1798
+//line sqlparser/parser.y:1830
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[8].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 309:
+	case 333:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1807
+//line sqlparser/parser.y:1839
 		{
 			yyVAL.foreignKeyDefinition = &ForeignKeyDefinition{
 				ConstraintName:   yyDollar[2].colIdent,
@@ -5294,33 +5322,33 @@ yydefault:
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
-	case 310:
+	case 334:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1819
+//line sqlparser/parser.y:1851
 		{
 			yyVAL.colIdent = NewColIdent("RESTRICT")
 		}
-	case 311:
+	case 335:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1823
+//line sqlparser/parser.y:1855
 		{
 			yyVAL.colIdent = NewColIdent("CASCADE")
 		}
-	case 312:
+	case 336:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1827
+//line sqlparser/parser.y:1859
 		{
 			yyVAL.colIdent = NewColIdent("SET NULL")
 		}
-	case 313:
+	case 337:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1831
+//line sqlparser/parser.y:1863
 		{
 			yyVAL.colIdent = NewColIdent("NO ACTION")
 		}
-	case 314:
+	case 338:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:1837
+//line sqlparser/parser.y:1869
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
 				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].str != "nonclustered"}, // CLUSTERED by default
@@ -5329,117 +5357,117 @@ yydefault:
 				Partition: yyDollar[10].indexPartition,
 			}
 		}
-	case 315:
+	case 339:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1848
+//line sqlparser/parser.y:1880
 		{
 			yyVAL.str = ""
 		}
-	case 316:
+	case 340:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1852
+//line sqlparser/parser.y:1884
 		{
 			yyVAL.str = "clustered"
 		}
-	case 317:
+	case 341:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1856
+//line sqlparser/parser.y:1888
 		{
 			yyVAL.str = "nonclustered"
 		}
-	case 318:
+	case 342:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1862
+//line sqlparser/parser.y:1894
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 319:
+	case 343:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1866
+//line sqlparser/parser.y:1898
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 320:
+	case 344:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1871
+//line sqlparser/parser.y:1903
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
-	case 322:
+	case 346:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1878
+//line sqlparser/parser.y:1910
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
-	case 323:
+	case 347:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1882
+//line sqlparser/parser.y:1914
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
-	case 324:
+	case 348:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1887
+//line sqlparser/parser.y:1919
 		{
 			yyVAL.str = ""
 		}
-	case 325:
+	case 349:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1891
+//line sqlparser/parser.y:1923
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
-	case 326:
+	case 350:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1895
+//line sqlparser/parser.y:1927
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
-	case 327:
+	case 351:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1903
+//line sqlparser/parser.y:1935
 		{
 			yyVAL.str = yyDollar[1].str
 		}
-	case 328:
+	case 352:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1907
+//line sqlparser/parser.y:1939
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
-	case 329:
+	case 353:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1911
+//line sqlparser/parser.y:1943
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
-	case 330:
+	case 354:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1917
+//line sqlparser/parser.y:1949
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
-	case 331:
+	case 355:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1921
+//line sqlparser/parser.y:1953
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
-	case 332:
+	case 356:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1925
+//line sqlparser/parser.y:1957
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 333:
+	case 357:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1931
+//line sqlparser/parser.y:1963
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 334:
+	case 358:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1935
+//line sqlparser/parser.y:1967
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5453,9 +5481,9 @@ yydefault:
 				IndexCols: yyDollar[10].indexColumns,
 			}
 		}
-	case 335:
+	case 359:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1949
+//line sqlparser/parser.y:1981
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5469,9 +5497,9 @@ yydefault:
 				IndexCols: yyDollar[12].indexColumns,
 			}
 		}
-	case 336:
+	case 360:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1963
+//line sqlparser/parser.y:1995
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5480,21 +5508,21 @@ yydefault:
 				ForeignKey: yyDollar[7].foreignKeyDefinition,
 			}
 		}
-	case 337:
+	case 361:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1972
+//line sqlparser/parser.y:2004
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 338:
+	case 362:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1976
+//line sqlparser/parser.y:2008
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 339:
+	case 363:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:1980
+//line sqlparser/parser.y:2012
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5507,9 +5535,9 @@ yydefault:
 				VindexCols: yyDollar[9].columns,
 			}
 		}
-	case 340:
+	case 364:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1993
+//line sqlparser/parser.y:2025
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5519,71 +5547,71 @@ yydefault:
 				},
 			}
 		}
-	case 341:
+	case 365:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2003
+//line sqlparser/parser.y:2035
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
-	case 342:
+	case 366:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2008
+//line sqlparser/parser.y:2040
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 343:
+	case 367:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2013
+//line sqlparser/parser.y:2045
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
-	case 344:
+	case 368:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2017
+//line sqlparser/parser.y:2049
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
-	case 365:
+	case 389:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2049
+//line sqlparser/parser.y:2081
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
-	case 366:
+	case 390:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2055
+//line sqlparser/parser.y:2087
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
-	case 367:
+	case 391:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2059
+//line sqlparser/parser.y:2091
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
-	case 368:
+	case 392:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2065
+//line sqlparser/parser.y:2097
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
-	case 369:
+	case 393:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2069
+//line sqlparser/parser.y:2101
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
-	case 370:
+	case 394:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2075
+//line sqlparser/parser.y:2107
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 371:
+	case 395:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2081
+//line sqlparser/parser.y:2113
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5591,16 +5619,16 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName, IfExists: exists}
 		}
-	case 372:
+	case 396:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2089
+//line sqlparser/parser.y:2121
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 373:
+	case 397:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2094
+//line sqlparser/parser.y:2126
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5608,123 +5636,123 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName.ToViewName(), IfExists: exists}
 		}
-	case 374:
+	case 398:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2102
+//line sqlparser/parser.y:2134
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 375:
+	case 399:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2106
+//line sqlparser/parser.y:2138
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 376:
+	case 400:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2112
+//line sqlparser/parser.y:2144
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
-	case 377:
+	case 401:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2116
+//line sqlparser/parser.y:2148
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
-	case 378:
+	case 402:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2121
+//line sqlparser/parser.y:2153
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
-	case 379:
+	case 403:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2127
+//line sqlparser/parser.y:2159
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 380:
+	case 404:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2131
+//line sqlparser/parser.y:2163
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 381:
+	case 405:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2135
+//line sqlparser/parser.y:2167
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 382:
+	case 406:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2140
+//line sqlparser/parser.y:2172
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 383:
+	case 407:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2144
+//line sqlparser/parser.y:2176
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 384:
+	case 408:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2148
+//line sqlparser/parser.y:2180
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 385:
+	case 409:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2152
+//line sqlparser/parser.y:2184
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 386:
+	case 410:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2156
+//line sqlparser/parser.y:2188
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 387:
+	case 411:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2160
+//line sqlparser/parser.y:2192
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 388:
+	case 412:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2164
+//line sqlparser/parser.y:2196
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 389:
+	case 413:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2168
+//line sqlparser/parser.y:2200
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 390:
+	case 414:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2172
+//line sqlparser/parser.y:2204
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 391:
+	case 415:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2176
+//line sqlparser/parser.y:2208
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 392:
+	case 416:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2180
+//line sqlparser/parser.y:2212
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 393:
+	case 417:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2184
+//line sqlparser/parser.y:2216
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5734,604 +5762,604 @@ yydefault:
 				yyVAL.statement = &Show{Type: yyDollar[4].str, ShowTablesOpt: showTablesOpt}
 			}
 		}
-	case 394:
+	case 418:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2194
+//line sqlparser/parser.y:2226
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 395:
+	case 419:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2198
+//line sqlparser/parser.y:2230
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 396:
+	case 420:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2202
+//line sqlparser/parser.y:2234
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
-	case 397:
+	case 421:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2206
+//line sqlparser/parser.y:2238
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 398:
+	case 422:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2210
+//line sqlparser/parser.y:2242
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 399:
+	case 423:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2214
+//line sqlparser/parser.y:2246
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 400:
+	case 424:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2218
+//line sqlparser/parser.y:2250
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 401:
+	case 425:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2228
+//line sqlparser/parser.y:2260
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 402:
+	case 426:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2234
+//line sqlparser/parser.y:2266
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 403:
+	case 427:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2238
+//line sqlparser/parser.y:2270
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 404:
+	case 428:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2244
+//line sqlparser/parser.y:2276
 		{
 			yyVAL.str = ""
 		}
-	case 405:
+	case 429:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2248
+//line sqlparser/parser.y:2280
 		{
 			yyVAL.str = "extended "
 		}
-	case 406:
+	case 430:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2254
+//line sqlparser/parser.y:2286
 		{
 			yyVAL.str = ""
 		}
-	case 407:
+	case 431:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2258
+//line sqlparser/parser.y:2290
 		{
 			yyVAL.str = "full "
 		}
-	case 408:
+	case 432:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2264
+//line sqlparser/parser.y:2296
 		{
 			yyVAL.str = ""
 		}
-	case 409:
+	case 433:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2268
+//line sqlparser/parser.y:2300
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 410:
+	case 434:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2272
+//line sqlparser/parser.y:2304
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 411:
+	case 435:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2278
+//line sqlparser/parser.y:2310
 		{
 			yyVAL.showFilter = nil
 		}
-	case 412:
+	case 436:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2282
+//line sqlparser/parser.y:2314
 		{
 			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
-	case 413:
+	case 437:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2286
+//line sqlparser/parser.y:2318
 		{
 			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
-	case 414:
+	case 438:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2292
+//line sqlparser/parser.y:2324
 		{
 			yyVAL.str = ""
 		}
-	case 415:
+	case 439:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2296
+//line sqlparser/parser.y:2328
 		{
 			yyVAL.str = SessionStr
 		}
-	case 416:
+	case 440:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2300
+//line sqlparser/parser.y:2332
 		{
 			yyVAL.str = GlobalStr
 		}
-	case 417:
+	case 441:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2306
+//line sqlparser/parser.y:2338
 		{
 			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
-	case 418:
+	case 442:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2310
+//line sqlparser/parser.y:2342
 		{
 			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
-	case 419:
+	case 443:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2316
+//line sqlparser/parser.y:2348
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 420:
+	case 444:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2320
+//line sqlparser/parser.y:2352
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 421:
+	case 445:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2326
+//line sqlparser/parser.y:2358
 		{
 			yyVAL.statement = &Commit{}
 		}
-	case 422:
+	case 446:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2332
+//line sqlparser/parser.y:2364
 		{
 			yyVAL.statement = &Rollback{}
 		}
-	case 423:
+	case 447:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2338
+//line sqlparser/parser.y:2370
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 424:
+	case 448:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2342
+//line sqlparser/parser.y:2374
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 425:
+	case 449:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2346
+//line sqlparser/parser.y:2378
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 426:
+	case 450:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2350
+//line sqlparser/parser.y:2382
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 427:
+	case 451:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2354
+//line sqlparser/parser.y:2386
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 428:
+	case 452:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2359
+//line sqlparser/parser.y:2391
 		{
 			setAllowComments(yylex, true)
 		}
-	case 429:
+	case 453:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2363
+//line sqlparser/parser.y:2395
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
-	case 430:
+	case 454:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2369
+//line sqlparser/parser.y:2401
 		{
 			yyVAL.bytes2 = nil
 		}
-	case 431:
+	case 455:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2373
+//line sqlparser/parser.y:2405
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
-	case 432:
+	case 456:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2379
+//line sqlparser/parser.y:2411
 		{
 			yyVAL.str = UnionStr
 		}
-	case 433:
+	case 457:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2383
+//line sqlparser/parser.y:2415
 		{
 			yyVAL.str = UnionAllStr
 		}
-	case 434:
+	case 458:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2387
+//line sqlparser/parser.y:2419
 		{
 			yyVAL.str = UnionDistinctStr
 		}
-	case 435:
+	case 459:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2392
+//line sqlparser/parser.y:2424
 		{
 			yyVAL.str = ""
 		}
-	case 436:
+	case 460:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2396
+//line sqlparser/parser.y:2428
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
-	case 437:
+	case 461:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2400
+//line sqlparser/parser.y:2432
 		{
 			yyVAL.str = SQLCacheStr
 		}
-	case 438:
+	case 462:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2405
+//line sqlparser/parser.y:2437
 		{
 			yyVAL.str = ""
 		}
-	case 439:
+	case 463:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2409
+//line sqlparser/parser.y:2441
 		{
 			yyVAL.str = DistinctStr
 		}
-	case 440:
+	case 464:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2414
+//line sqlparser/parser.y:2446
 		{
 			yyVAL.str = ""
 		}
-	case 441:
+	case 465:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2418
+//line sqlparser/parser.y:2450
 		{
 			yyVAL.str = StraightJoinHint
 		}
-	case 442:
+	case 466:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2423
+//line sqlparser/parser.y:2455
 		{
 			yyVAL.selectExprs = nil
 		}
-	case 443:
+	case 467:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2427
+//line sqlparser/parser.y:2459
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
-	case 444:
+	case 468:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2433
+//line sqlparser/parser.y:2465
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
-	case 445:
+	case 469:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2437
+//line sqlparser/parser.y:2469
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
-	case 446:
+	case 470:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2443
+//line sqlparser/parser.y:2475
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
-	case 447:
+	case 471:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2447
+//line sqlparser/parser.y:2479
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
-	case 448:
+	case 472:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2451
+//line sqlparser/parser.y:2483
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
-	case 449:
+	case 473:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2455
+//line sqlparser/parser.y:2487
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
-	case 450:
+	case 474:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2460
+//line sqlparser/parser.y:2492
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
-	case 451:
+	case 475:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2464
+//line sqlparser/parser.y:2496
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
-	case 452:
+	case 476:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2468
+//line sqlparser/parser.y:2500
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
-	case 454:
+	case 478:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2475
+//line sqlparser/parser.y:2507
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 455:
+	case 479:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2480
+//line sqlparser/parser.y:2512
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
-	case 456:
+	case 480:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2484
+//line sqlparser/parser.y:2516
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
-	case 457:
+	case 481:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2490
+//line sqlparser/parser.y:2522
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
-	case 458:
+	case 482:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2494
+//line sqlparser/parser.y:2526
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
-	case 461:
+	case 485:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2504
+//line sqlparser/parser.y:2536
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
-	case 462:
+	case 486:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2508
+//line sqlparser/parser.y:2540
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
-	case 463:
+	case 487:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2512
+//line sqlparser/parser.y:2544
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
-	case 464:
+	case 488:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2518
+//line sqlparser/parser.y:2550
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
-	case 465:
+	case 489:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2522
+//line sqlparser/parser.y:2554
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
-	case 466:
+	case 490:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2528
+//line sqlparser/parser.y:2560
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 467:
+	case 491:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2533
+//line sqlparser/parser.y:2565
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
-	case 468:
+	case 492:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2537
+//line sqlparser/parser.y:2569
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 469:
+	case 493:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2543
+//line sqlparser/parser.y:2575
 		{
 			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
-	case 470:
+	case 494:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2547
+//line sqlparser/parser.y:2579
 		{
 			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
-	case 471:
+	case 495:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2560
+//line sqlparser/parser.y:2592
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 472:
+	case 496:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2564
+//line sqlparser/parser.y:2596
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 473:
+	case 497:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2568
+//line sqlparser/parser.y:2600
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 474:
+	case 498:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2572
+//line sqlparser/parser.y:2604
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
 		}
-	case 475:
+	case 499:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2578
+//line sqlparser/parser.y:2610
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 476:
+	case 500:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2580
+//line sqlparser/parser.y:2612
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
-	case 477:
+	case 501:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2584
+//line sqlparser/parser.y:2616
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 478:
+	case 502:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2586
+//line sqlparser/parser.y:2618
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
-	case 479:
+	case 503:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2590
+//line sqlparser/parser.y:2622
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 480:
+	case 504:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2592
+//line sqlparser/parser.y:2624
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 481:
+	case 505:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2595
+//line sqlparser/parser.y:2627
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 482:
+	case 506:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2597
+//line sqlparser/parser.y:2629
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 483:
+	case 507:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2600
+//line sqlparser/parser.y:2632
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
-	case 484:
+	case 508:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2604
+//line sqlparser/parser.y:2636
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
-	case 485:
+	case 509:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2608
+//line sqlparser/parser.y:2640
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
-	case 487:
+	case 511:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2615
+//line sqlparser/parser.y:2647
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 488:
+	case 512:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2621
+//line sqlparser/parser.y:2653
 		{
 			yyVAL.str = JoinStr
 		}
-	case 489:
+	case 513:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2625
+//line sqlparser/parser.y:2657
 		{
 			yyVAL.str = JoinStr
 		}
-	case 490:
+	case 514:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2629
+//line sqlparser/parser.y:2661
 		{
 			yyVAL.str = JoinStr
 		}
-	case 491:
+	case 515:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2635
+//line sqlparser/parser.y:2667
 		{
 			yyVAL.str = StraightJoinStr
 		}
-	case 492:
+	case 516:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2641
+//line sqlparser/parser.y:2673
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 493:
+	case 517:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2645
+//line sqlparser/parser.y:2677
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 494:
+	case 518:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2649
+//line sqlparser/parser.y:2681
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 495:
+	case 519:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2653
+//line sqlparser/parser.y:2685
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 496:
+	case 520:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2659
+//line sqlparser/parser.y:2691
 		{
 			yyVAL.str = NaturalJoinStr
 		}
-	case 497:
+	case 521:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2663
+//line sqlparser/parser.y:2695
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6339,465 +6367,465 @@ yydefault:
 				yyVAL.str = NaturalRightJoinStr
 			}
 		}
-	case 498:
+	case 522:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2673
+//line sqlparser/parser.y:2705
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
-	case 499:
+	case 523:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2677
+//line sqlparser/parser.y:2709
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
-	case 500:
+	case 524:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2683
+//line sqlparser/parser.y:2715
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
-	case 501:
+	case 525:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2687
+//line sqlparser/parser.y:2719
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
-	case 502:
+	case 526:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2692
+//line sqlparser/parser.y:2724
 		{
 			yyVAL.indexHints = nil
 		}
-	case 503:
+	case 527:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2696
+//line sqlparser/parser.y:2728
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
-	case 504:
+	case 528:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2700
+//line sqlparser/parser.y:2732
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
-	case 505:
+	case 529:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2704
+//line sqlparser/parser.y:2736
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
-	case 506:
+	case 530:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2709
+//line sqlparser/parser.y:2741
 		{
 			yyVAL.expr = nil
 		}
-	case 507:
+	case 531:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2713
+//line sqlparser/parser.y:2745
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 508:
+	case 532:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2718
+//line sqlparser/parser.y:2750
 		{
 			yyVAL.columns = nil
 		}
-	case 509:
+	case 533:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2722
+//line sqlparser/parser.y:2754
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
-	case 510:
+	case 534:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2728
+//line sqlparser/parser.y:2760
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 511:
+	case 535:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2732
+//line sqlparser/parser.y:2764
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 512:
+	case 536:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2736
+//line sqlparser/parser.y:2768
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 513:
+	case 537:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2740
+//line sqlparser/parser.y:2772
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
-	case 514:
+	case 538:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2744
+//line sqlparser/parser.y:2776
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
-	case 515:
+	case 539:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2748
+//line sqlparser/parser.y:2780
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 516:
+	case 540:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2752
+//line sqlparser/parser.y:2784
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
-	case 517:
+	case 541:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2758
+//line sqlparser/parser.y:2790
 		{
 			yyVAL.str = ""
 		}
-	case 518:
+	case 542:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2762
+//line sqlparser/parser.y:2794
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 519:
+	case 543:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2768
+//line sqlparser/parser.y:2800
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 520:
+	case 544:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2772
+//line sqlparser/parser.y:2804
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 521:
+	case 545:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2778
+//line sqlparser/parser.y:2810
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
-	case 522:
+	case 546:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2782
+//line sqlparser/parser.y:2814
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
-	case 523:
+	case 547:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2786
+//line sqlparser/parser.y:2818
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
-	case 524:
+	case 548:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2790
+//line sqlparser/parser.y:2822
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
-	case 525:
+	case 549:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2794
+//line sqlparser/parser.y:2826
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
-	case 526:
+	case 550:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2798
+//line sqlparser/parser.y:2830
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
-	case 527:
+	case 551:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2802
+//line sqlparser/parser.y:2834
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
-	case 528:
+	case 552:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2806
+//line sqlparser/parser.y:2838
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
-	case 529:
+	case 553:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2810
+//line sqlparser/parser.y:2842
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
-	case 530:
+	case 554:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2814
+//line sqlparser/parser.y:2846
 		{
 			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
-	case 531:
+	case 555:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2820
+//line sqlparser/parser.y:2852
 		{
 			yyVAL.str = IsNullStr
 		}
-	case 532:
+	case 556:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2824
+//line sqlparser/parser.y:2856
 		{
 			yyVAL.str = IsNotNullStr
 		}
-	case 533:
+	case 557:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2828
+//line sqlparser/parser.y:2860
 		{
 			yyVAL.str = IsTrueStr
 		}
-	case 534:
+	case 558:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2832
+//line sqlparser/parser.y:2864
 		{
 			yyVAL.str = IsNotTrueStr
 		}
-	case 535:
+	case 559:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2836
+//line sqlparser/parser.y:2868
 		{
 			yyVAL.str = IsFalseStr
 		}
-	case 536:
+	case 560:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2840
+//line sqlparser/parser.y:2872
 		{
 			yyVAL.str = IsNotFalseStr
 		}
-	case 537:
+	case 561:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2846
+//line sqlparser/parser.y:2878
 		{
 			yyVAL.str = EqualStr
 		}
-	case 538:
+	case 562:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2850
+//line sqlparser/parser.y:2882
 		{
 			yyVAL.str = LessThanStr
 		}
-	case 539:
+	case 563:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2854
+//line sqlparser/parser.y:2886
 		{
 			yyVAL.str = GreaterThanStr
 		}
-	case 540:
+	case 564:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2858
+//line sqlparser/parser.y:2890
 		{
 			yyVAL.str = LessEqualStr
 		}
-	case 541:
+	case 565:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2862
+//line sqlparser/parser.y:2894
 		{
 			yyVAL.str = GreaterEqualStr
 		}
-	case 542:
+	case 566:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2866
+//line sqlparser/parser.y:2898
 		{
 			yyVAL.str = NotEqualStr
 		}
-	case 543:
+	case 567:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2870
+//line sqlparser/parser.y:2902
 		{
 			yyVAL.str = NullSafeEqualStr
 		}
-	case 544:
+	case 568:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2875
+//line sqlparser/parser.y:2907
 		{
 			yyVAL.expr = nil
 		}
-	case 545:
+	case 569:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2879
+//line sqlparser/parser.y:2911
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 546:
+	case 570:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2885
+//line sqlparser/parser.y:2917
 		{
 			yyVAL.colTuple = yyDollar[1].valTuple
 		}
-	case 547:
+	case 571:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2889
+//line sqlparser/parser.y:2921
 		{
 			yyVAL.colTuple = yyDollar[1].subquery
 		}
-	case 548:
+	case 572:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2893
+//line sqlparser/parser.y:2925
 		{
 			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
-	case 549:
+	case 573:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2899
+//line sqlparser/parser.y:2931
 		{
 			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
-	case 550:
+	case 574:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2905
+//line sqlparser/parser.y:2937
 		{
 			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
-	case 551:
+	case 575:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2909
+//line sqlparser/parser.y:2941
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
-	case 552:
+	case 576:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2915
+//line sqlparser/parser.y:2947
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 553:
+	case 577:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2919
+//line sqlparser/parser.y:2951
 		{
 			yyVAL.expr = yyDollar[1].boolVal
 		}
-	case 554:
+	case 578:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2923
+//line sqlparser/parser.y:2955
 		{
 			yyVAL.expr = yyDollar[1].colName
 		}
-	case 555:
+	case 579:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2927
+//line sqlparser/parser.y:2959
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 556:
+	case 580:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2931
+//line sqlparser/parser.y:2963
 		{
 			yyVAL.expr = yyDollar[1].subquery
 		}
-	case 557:
+	case 581:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2935
+//line sqlparser/parser.y:2967
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
-	case 558:
+	case 582:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2939
+//line sqlparser/parser.y:2971
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
-	case 559:
+	case 583:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2943
+//line sqlparser/parser.y:2975
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
-	case 560:
+	case 584:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2947
+//line sqlparser/parser.y:2979
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
-	case 561:
+	case 585:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2951
+//line sqlparser/parser.y:2983
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
-	case 562:
+	case 586:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2955
+//line sqlparser/parser.y:2987
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
-	case 563:
+	case 587:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2959
+//line sqlparser/parser.y:2991
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
-	case 564:
+	case 588:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2963
+//line sqlparser/parser.y:2995
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
-	case 565:
+	case 589:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2967
+//line sqlparser/parser.y:2999
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 566:
+	case 590:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2971
+//line sqlparser/parser.y:3003
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 567:
+	case 591:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2975
+//line sqlparser/parser.y:3007
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
-	case 568:
+	case 592:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2979
+//line sqlparser/parser.y:3011
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
-	case 569:
+	case 593:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2983
+//line sqlparser/parser.y:3015
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
-	case 570:
+	case 594:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2987
+//line sqlparser/parser.y:3019
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
-	case 571:
+	case 595:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2991
+//line sqlparser/parser.y:3023
 		{
 			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
-	case 572:
+	case 596:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2995
+//line sqlparser/parser.y:3027
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 573:
+	case 597:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2999
+//line sqlparser/parser.y:3031
 		{
 			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 574:
+	case 598:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3003
+//line sqlparser/parser.y:3035
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6805,9 +6833,9 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UPlusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 575:
+	case 599:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3011
+//line sqlparser/parser.y:3043
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6821,21 +6849,21 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UMinusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 576:
+	case 600:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3025
+//line sqlparser/parser.y:3057
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
-	case 577:
+	case 601:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3029
+//line sqlparser/parser.y:3061
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
-	case 578:
+	case 602:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3033
+//line sqlparser/parser.y:3065
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6843,491 +6871,491 @@ yydefault:
 			// will be non-trivial because of grammar conflicts.
 			yyVAL.expr = &IntervalExpr{Expr: yyDollar[2].expr, Unit: yyDollar[3].colIdent.String()}
 		}
-	case 579:
+	case 603:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3041
+//line sqlparser/parser.y:3073
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType}
 		}
-	case 584:
+	case 608:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3055
+//line sqlparser/parser.y:3087
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
-	case 585:
+	case 609:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3059
+//line sqlparser/parser.y:3091
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
-	case 586:
+	case 610:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3063
+//line sqlparser/parser.y:3095
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
-	case 587:
+	case 611:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3073
+//line sqlparser/parser.y:3105
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 588:
+	case 612:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3077
+//line sqlparser/parser.y:3109
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 589:
+	case 613:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3081
+//line sqlparser/parser.y:3113
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 590:
+	case 614:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3085
+//line sqlparser/parser.y:3117
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 591:
+	case 615:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3089
+//line sqlparser/parser.y:3121
 		{
 			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
-	case 592:
+	case 616:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3093
+//line sqlparser/parser.y:3125
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 593:
+	case 617:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3097
+//line sqlparser/parser.y:3129
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 594:
+	case 618:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3101
+//line sqlparser/parser.y:3133
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 595:
+	case 619:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3105
+//line sqlparser/parser.y:3137
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 596:
+	case 620:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3109
+//line sqlparser/parser.y:3141
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 597:
+	case 621:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3113
+//line sqlparser/parser.y:3145
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 598:
+	case 622:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:3117
+//line sqlparser/parser.y:3149
 		{
 			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
-	case 599:
+	case 623:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3121
+//line sqlparser/parser.y:3153
 		{
 			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
-	case 600:
+	case 624:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3125
+//line sqlparser/parser.y:3157
 		{
 			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
-	case 601:
+	case 625:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3129
+//line sqlparser/parser.y:3161
 		{
 			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
-	case 602:
+	case 626:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3139
+//line sqlparser/parser.y:3171
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
-	case 603:
+	case 627:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3143
+//line sqlparser/parser.y:3175
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
-	case 604:
+	case 628:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3147
+//line sqlparser/parser.y:3179
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
-	case 605:
+	case 629:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3151
+//line sqlparser/parser.y:3183
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
-	case 606:
+	case 630:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3156
+//line sqlparser/parser.y:3188
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
-	case 607:
+	case 631:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3161
+//line sqlparser/parser.y:3193
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
-	case 608:
+	case 632:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3166
+//line sqlparser/parser.y:3198
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
-	case 609:
+	case 633:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3171
+//line sqlparser/parser.y:3203
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
 		}
-	case 610:
+	case 634:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3175
+//line sqlparser/parser.y:3207
 		{
 			yyVAL.expr = &ConvertExpr{Type: yyDollar[2].convertType}
 		}
-	case 613:
+	case 637:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3189
+//line sqlparser/parser.y:3221
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 614:
+	case 638:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3193
+//line sqlparser/parser.y:3225
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 615:
+	case 639:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3197
+//line sqlparser/parser.y:3229
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 616:
+	case 640:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3201
+//line sqlparser/parser.y:3233
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 617:
+	case 641:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3207
+//line sqlparser/parser.y:3239
 		{
 			yyVAL.str = ""
 		}
-	case 618:
+	case 642:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3211
+//line sqlparser/parser.y:3243
 		{
 			yyVAL.str = BooleanModeStr
 		}
-	case 619:
+	case 643:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3215
+//line sqlparser/parser.y:3247
 		{
 			yyVAL.str = NaturalLanguageModeStr
 		}
-	case 620:
+	case 644:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3219
+//line sqlparser/parser.y:3251
 		{
 			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
-	case 621:
+	case 645:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3223
+//line sqlparser/parser.y:3255
 		{
 			yyVAL.str = QueryExpansionStr
 		}
-	case 622:
+	case 646:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3229
+//line sqlparser/parser.y:3261
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 623:
+	case 647:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3233
+//line sqlparser/parser.y:3265
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 624:
+	case 648:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3239
+//line sqlparser/parser.y:3271
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 625:
+	case 649:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3243
+//line sqlparser/parser.y:3275
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
-	case 626:
+	case 650:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3247
+//line sqlparser/parser.y:3279
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
-	case 627:
+	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3251
+//line sqlparser/parser.y:3283
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 628:
+	case 652:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3255
+//line sqlparser/parser.y:3287
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 629:
+	case 653:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3259
+//line sqlparser/parser.y:3291
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 630:
+	case 654:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3265
+//line sqlparser/parser.y:3297
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 631:
+	case 655:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3269
+//line sqlparser/parser.y:3301
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 632:
+	case 656:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3273
+//line sqlparser/parser.y:3305
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 633:
+	case 657:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3277
+//line sqlparser/parser.y:3309
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 634:
+	case 658:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3281
+//line sqlparser/parser.y:3313
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 635:
+	case 659:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3285
+//line sqlparser/parser.y:3317
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 636:
+	case 660:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3289
+//line sqlparser/parser.y:3321
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 637:
+	case 661:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3293
+//line sqlparser/parser.y:3325
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 638:
+	case 662:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3299
+//line sqlparser/parser.y:3331
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 639:
+	case 663:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3303
+//line sqlparser/parser.y:3335
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
-	case 640:
+	case 664:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3307
+//line sqlparser/parser.y:3339
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 641:
+	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3311
+//line sqlparser/parser.y:3343
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 642:
+	case 666:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3315
+//line sqlparser/parser.y:3347
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 643:
+	case 667:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3319
+//line sqlparser/parser.y:3351
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 644:
+	case 668:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3323
+//line sqlparser/parser.y:3355
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 645:
+	case 669:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3328
+//line sqlparser/parser.y:3360
 		{
 			yyVAL.expr = nil
 		}
-	case 646:
+	case 670:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3332
+//line sqlparser/parser.y:3364
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 647:
+	case 671:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3337
+//line sqlparser/parser.y:3369
 		{
 			yyVAL.str = string("")
 		}
-	case 648:
+	case 672:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3341
+//line sqlparser/parser.y:3373
 		{
 			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
 		}
-	case 649:
+	case 673:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3347
+//line sqlparser/parser.y:3379
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
-	case 650:
+	case 674:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3351
+//line sqlparser/parser.y:3383
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
-	case 651:
+	case 675:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3357
+//line sqlparser/parser.y:3389
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
-	case 652:
+	case 676:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3362
+//line sqlparser/parser.y:3394
 		{
 			yyVAL.expr = nil
 		}
-	case 653:
+	case 677:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3366
+//line sqlparser/parser.y:3398
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 654:
+	case 678:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3372
+//line sqlparser/parser.y:3404
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
-	case 655:
+	case 679:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3376
+//line sqlparser/parser.y:3408
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
-	case 656:
+	case 680:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3380
+//line sqlparser/parser.y:3412
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
-	case 657:
+	case 681:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3386
+//line sqlparser/parser.y:3418
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 658:
+	case 682:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3390
+//line sqlparser/parser.y:3422
 		{
 			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
-	case 659:
+	case 683:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3394
+//line sqlparser/parser.y:3426
 		{
 			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
-	case 660:
+	case 684:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3398
+//line sqlparser/parser.y:3430
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 661:
+	case 685:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3402
+//line sqlparser/parser.y:3434
 		{
 			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
-	case 662:
+	case 686:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3406
+//line sqlparser/parser.y:3438
 		{
 			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
-	case 663:
+	case 687:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3410
+//line sqlparser/parser.y:3442
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 664:
+	case 688:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3414
+//line sqlparser/parser.y:3446
 		{
 			yyVAL.expr = &NullVal{}
 		}
-	case 665:
+	case 689:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3420
+//line sqlparser/parser.y:3452
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7336,239 +7364,239 @@ yydefault:
 			}
 			yyVAL.expr = NewIntVal([]byte("1"))
 		}
-	case 666:
+	case 690:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3429
+//line sqlparser/parser.y:3461
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 667:
+	case 691:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3433
+//line sqlparser/parser.y:3465
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 668:
+	case 692:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3438
+//line sqlparser/parser.y:3470
 		{
 			yyVAL.exprs = nil
 		}
-	case 669:
+	case 693:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3442
+//line sqlparser/parser.y:3474
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
-	case 670:
+	case 694:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3447
+//line sqlparser/parser.y:3479
 		{
 			yyVAL.expr = nil
 		}
-	case 671:
+	case 695:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3451
+//line sqlparser/parser.y:3483
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 672:
+	case 696:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3456
+//line sqlparser/parser.y:3488
 		{
 			yyVAL.orderBy = nil
 		}
-	case 673:
+	case 697:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3460
+//line sqlparser/parser.y:3492
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
-	case 674:
+	case 698:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3466
+//line sqlparser/parser.y:3498
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
-	case 675:
+	case 699:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3470
+//line sqlparser/parser.y:3502
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
-	case 676:
+	case 700:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3476
+//line sqlparser/parser.y:3508
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
-	case 677:
+	case 701:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3481
+//line sqlparser/parser.y:3513
 		{
 			yyVAL.str = AscScr
 		}
-	case 678:
+	case 702:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3485
+//line sqlparser/parser.y:3517
 		{
 			yyVAL.str = AscScr
 		}
-	case 679:
+	case 703:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3489
+//line sqlparser/parser.y:3521
 		{
 			yyVAL.str = DescScr
 		}
-	case 680:
+	case 704:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3494
+//line sqlparser/parser.y:3526
 		{
 			yyVAL.limit = nil
 		}
-	case 681:
+	case 705:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3498
+//line sqlparser/parser.y:3530
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
-	case 682:
+	case 706:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3502
+//line sqlparser/parser.y:3534
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
-	case 683:
+	case 707:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3506
+//line sqlparser/parser.y:3538
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
-	case 684:
+	case 708:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3511
+//line sqlparser/parser.y:3543
 		{
 			yyVAL.str = ""
 		}
-	case 685:
+	case 709:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3515
+//line sqlparser/parser.y:3547
 		{
 			yyVAL.str = ForUpdateStr
 		}
-	case 686:
+	case 710:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3519
+//line sqlparser/parser.y:3551
 		{
 			yyVAL.str = ShareModeStr
 		}
-	case 687:
+	case 711:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3532
+//line sqlparser/parser.y:3564
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
-	case 688:
+	case 712:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3536
+//line sqlparser/parser.y:3568
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
-	case 689:
+	case 713:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3540
+//line sqlparser/parser.y:3572
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
-	case 690:
+	case 714:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3545
+//line sqlparser/parser.y:3577
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
-	case 691:
+	case 715:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3549
+//line sqlparser/parser.y:3581
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
-	case 692:
+	case 716:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3553
+//line sqlparser/parser.y:3585
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
-	case 693:
+	case 717:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3560
+//line sqlparser/parser.y:3592
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 694:
+	case 718:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3564
+//line sqlparser/parser.y:3596
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
-	case 695:
+	case 719:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3568
+//line sqlparser/parser.y:3600
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 696:
+	case 720:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3572
+//line sqlparser/parser.y:3604
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
-	case 697:
+	case 721:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3577
+//line sqlparser/parser.y:3609
 		{
 			yyVAL.updateExprs = nil
 		}
-	case 698:
+	case 722:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3581
+//line sqlparser/parser.y:3613
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
-	case 699:
+	case 723:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3587
+//line sqlparser/parser.y:3619
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
-	case 700:
+	case 724:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3591
+//line sqlparser/parser.y:3623
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
-	case 701:
+	case 725:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3597
+//line sqlparser/parser.y:3629
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
-	case 702:
+	case 726:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3601
+//line sqlparser/parser.y:3633
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
-	case 703:
+	case 727:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3607
+//line sqlparser/parser.y:3639
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
-	case 704:
+	case 728:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3613
+//line sqlparser/parser.y:3645
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7576,282 +7604,282 @@ yydefault:
 				yyVAL.expr = yyDollar[1].valTuple
 			}
 		}
-	case 705:
+	case 729:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3623
+//line sqlparser/parser.y:3655
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
-	case 706:
+	case 730:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3627
+//line sqlparser/parser.y:3659
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
-	case 707:
+	case 731:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3633
+//line sqlparser/parser.y:3665
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
-	case 708:
+	case 732:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3639
+//line sqlparser/parser.y:3671
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
-	case 709:
+	case 733:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3643
+//line sqlparser/parser.y:3675
 		{
 			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
-	case 710:
+	case 734:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3649
+//line sqlparser/parser.y:3681
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
-	case 711:
+	case 735:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3653
+//line sqlparser/parser.y:3685
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
-	case 712:
+	case 736:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3657
+//line sqlparser/parser.y:3689
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
 		}
-	case 713:
+	case 737:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3661
+//line sqlparser/parser.y:3693
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
-	case 715:
+	case 739:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3668
+//line sqlparser/parser.y:3700
 		{
 			yyVAL.bytes = []byte("charset")
 		}
-	case 717:
+	case 741:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3675
+//line sqlparser/parser.y:3707
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
-	case 718:
+	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3679
+//line sqlparser/parser.y:3711
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 719:
+	case 743:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3683
+//line sqlparser/parser.y:3715
 		{
 			yyVAL.expr = &Default{}
 		}
-	case 722:
+	case 746:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3692
+//line sqlparser/parser.y:3724
 		{
 			yyVAL.byt = 0
 		}
-	case 723:
+	case 747:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3694
+//line sqlparser/parser.y:3726
 		{
 			yyVAL.byt = 1
 		}
-	case 724:
+	case 748:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3697
+//line sqlparser/parser.y:3729
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 725:
+	case 749:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3699
+//line sqlparser/parser.y:3731
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 726:
+	case 750:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3702
+//line sqlparser/parser.y:3734
 		{
 			yyVAL.str = ""
 		}
-	case 727:
+	case 751:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3704
+//line sqlparser/parser.y:3736
 		{
 			yyVAL.str = IgnoreStr
 		}
-	case 728:
+	case 752:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3708
+//line sqlparser/parser.y:3740
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 729:
+	case 753:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3710
+//line sqlparser/parser.y:3742
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 730:
+	case 754:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3712
+//line sqlparser/parser.y:3744
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 731:
+	case 755:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3714
+//line sqlparser/parser.y:3746
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 732:
+	case 756:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3716
+//line sqlparser/parser.y:3748
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 733:
+	case 757:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3718
+//line sqlparser/parser.y:3750
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 734:
+	case 758:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3720
+//line sqlparser/parser.y:3752
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 735:
+	case 759:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3722
+//line sqlparser/parser.y:3754
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 736:
+	case 760:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3724
+//line sqlparser/parser.y:3756
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 737:
+	case 761:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3726
+//line sqlparser/parser.y:3758
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 738:
+	case 762:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3729
+//line sqlparser/parser.y:3761
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 739:
+	case 763:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3731
+//line sqlparser/parser.y:3763
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 740:
+	case 764:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3733
+//line sqlparser/parser.y:3765
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 741:
+	case 765:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3737
+//line sqlparser/parser.y:3769
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 742:
+	case 766:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3739
+//line sqlparser/parser.y:3771
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 743:
+	case 767:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3743
+//line sqlparser/parser.y:3775
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 744:
+	case 768:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3747
+//line sqlparser/parser.y:3779
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 746:
+	case 770:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3754
+//line sqlparser/parser.y:3786
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 747:
+	case 771:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3760
+//line sqlparser/parser.y:3792
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 748:
+	case 772:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3764
+//line sqlparser/parser.y:3796
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 750:
+	case 774:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3771
+//line sqlparser/parser.y:3803
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 991:
+	case 1015:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4037
+//line sqlparser/parser.y:4069
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
 				return 1
 			}
 		}
-	case 992:
+	case 1016:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4046
+//line sqlparser/parser.y:4078
 		{
 			decNesting(yylex)
 		}
-	case 993:
+	case 1017:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4051
+//line sqlparser/parser.y:4083
 		{
 			forceEOF(yylex)
 		}
-	case 994:
+	case 1018:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4056
+//line sqlparser/parser.y:4088
 		{
 			forceEOF(yylex)
 		}
-	case 995:
+	case 1019:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4060
+//line sqlparser/parser.y:4092
 		{
 			forceEOF(yylex)
 		}
-	case 996:
+	case 1020:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4064
+//line sqlparser/parser.y:4096
 		{
 			forceEOF(yylex)
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 00e0a3c..fc5c124 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -307,6 +307,7 @@ func forceEOF(yylex interface{}) {
 %type <foreignKeyDefinition> foreign_key_definition foreign_key_without_options
 %type <colIdent> reference_option
 %type <colIdent> sql_id_opt
+%type <bytes> column_keyword
 %type <colIdents> sql_id_list
 %type <str> index_or_key
 %type <str> equal_opt
@@ -890,6 +891,37 @@ column_definition:
   {
     $$ = &ColumnDefinition{Name: NewColIdent(string($1)), Type: $2}
   }
+| column_keyword column_definition_type
+  {
+    $$ = &ColumnDefinition{Name: NewColIdent(string($1)), Type: $2}
+  }
+
+// Keywords which name a column without quotes in every database.
+column_keyword:
+  ACTION
+| COMMENT_KEYWORD
+| DATE
+| DATETIME
+| LANGUAGE
+| LEVEL
+| MODE
+| NAMES
+| OFFSET
+| POINT
+| QUERY
+| SESSION
+| SHARE
+| START
+| STATUS
+| TEXT
+| TIME
+| TIMESTAMP
+| TRANSACTION
+| UUID
+| VIEW
+| YEAR
+| ZONE
+
 column_type:
   numeric_type unsigned_opt zero_fill_opt
   {
-- 
2.43.0


From 83aca7b1a58cccc3eb474429ef7a159b0b710d41 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 62/84] fix: keep the comment of a column

A comment was not written when its column was added or changed, so that
changing a column removed it, and a changed comment was not noticed.
---
 schema/ast.go       |  1 +
 schema/generator.go | 28 ++++++++++++++++++++++------
 schema/parser.go    |  1 +
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/schema/ast.go b/schema/ast.go
index d050ce7..6d259a6 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -70,6 +70,7 @@ type Column struct {
 	references     string
 	identity       *Identity
 	sequence       *Sequence
+	comment        *Value // for MySQL
 	// TODO: keyopt
 	// XXX: zerofill?
 }
diff --git a/schema/generator.go b/schema/generator.go
index 1043ae6..3de3335 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -899,6 +899,10 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 		definition += fmt.Sprintf("ON UPDATE %s ", string(column.onUpdate.raw))
 	}
 
+	if g.mode == GeneratorModeMysql && commentOf(column) != "" {
+		definition += fmt.Sprintf("COMMENT %s ", g.quoteString(commentOf(column)))
+	}
+
 	if column.check != nil {
 		if g.mode == GeneratorModeMssql && column.check.constraintName != "" {
 			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.check.constraintName))
@@ -1360,7 +1364,15 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		(current.check == desired.check) &&
 		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
 		(desired.collate == "" || current.collate == desired.collate) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
-		reflect.DeepEqual(current.onUpdate, desired.onUpdate)
+		reflect.DeepEqual(current.onUpdate, desired.onUpdate) &&
+		commentOf(current) == commentOf(desired)
+}
+
+func commentOf(column Column) string {
+	if column.comment == nil {
+		return ""
+	}
+	return column.comment.strVal
 }
 
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
@@ -1808,14 +1820,18 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
+func (g *Generator) quoteString(value string) string {
+	value = strings.Replace(value, "'", "''", -1)
+	if g.mode == GeneratorModeMysql {
+		value = strings.Replace(value, `\`, `\\`, -1)
+	}
+	return "'" + value + "'"
+}
+
 func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		value := strings.Replace(defaultVal.strVal, "'", "''", -1)
-		if g.mode == GeneratorModeMysql {
-			value = strings.Replace(value, `\`, `\\`, -1)
-		}
-		return fmt.Sprintf("DEFAULT '%s'", value), nil
+		return fmt.Sprintf("DEFAULT %s", g.quoteString(defaultVal.strVal)), nil
 	case ValueTypeInt, ValueTypeFloat:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
diff --git a/schema/parser.go b/schema/parser.go
index 89b983b..a24ee41 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -147,6 +147,7 @@ func parseTable(mode GeneratorMode, ddl string, stmt *sqlparser.DDL) (Table, err
 			references:    parsedCol.Type.References,
 			identity:      parseIdentity(parsedCol.Type.Identity),
 			sequence:      parseIdentitySequence(parsedCol.Type.Identity),
+			comment:       parseValue(parsedCol.Type.Comment),
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-- 
2.43.0


From 79328a3621c80e89583ffde163d10f6bea8dd014 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 63/84] fix: change the prefix length of an index

---
 schema/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 3de3335..39eac70 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1566,7 +1566,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 		if indexB.columns[i].direction == "" {
 			indexB.columns[i].direction = AscScr
 		}
-		// TODO: check length?
+		if indexAColumn.length != nil && indexB.columns[i].length != nil && *indexAColumn.length != *indexB.columns[i].length { // MySQL doesn't show the whole length of a column
+			return false
+		}
 		if indexAColumn.column != indexB.columns[i].column || indexAColumn.direction != indexB.columns[i].direction {
 			return false
 		}
-- 
2.43.0


From 9b22b724a931e1a3798d380ba5714d13d76fbfed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 64/84] fix: change the columns and the table of a foreign key
 in MySQL

A foreign key of the same name with other columns, or to another table, was
taken for the same.
---
 schema/generator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 39eac70..66f5a16 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1609,7 +1609,14 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	// TODO: check index, reference
+	if g.mode == GeneratorModeMysql { // TODO: those of multiple columns in the other databases
+		if !reflect.DeepEqual(foreignKeyA.indexColumns, foreignKeyB.indexColumns) ||
+			!reflect.DeepEqual(foreignKeyA.referenceColumns, foreignKeyB.referenceColumns) ||
+			foreignKeyA.referenceName != foreignKeyB.referenceName {
+			return false
+		}
+	}
+	// TODO: check index
 	return true
 }
 
-- 
2.43.0


From 4846646269eb6df71e390831dd6c1e258b377a63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 65/84] fix: let a column leave the primary key and become
 nullable at once

---
 schema/generator.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 66f5a16..f1fd863 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -282,6 +282,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			// We may not be able to add AUTO_INCREMENT yet. It will be added after adding keys (primary or not) at the "Add new AUTO_INCREMENT" place.
 			desiredColumn.autoIncrement = false
 		}
+		if currentColumn != nil && g.mode == GeneratorModeMysql && leavesPrimaryKey(*currentColumn, currentTable, desired.table) {
+			desiredColumn.notNull = currentColumn.notNull // It can be nullable only after the primary key is dropped.
+		}
 		if currentColumn == nil {
 			definition, err := g.generateColumnDefinition(desiredColumn, true)
 			if err != nil {
@@ -478,6 +481,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					column = *desiredColumn // keep other changes of the column made above
 				}
 				column.autoIncrement = false
+				if leavesPrimaryKey(currentColumn, currentTable, desired.table) {
+					column.notNull = currentColumn.notNull
+				}
 				definition, err := g.generateColumnDefinition(column, false)
 				if err != nil {
 					return ddls, err
@@ -508,6 +514,26 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		}
 	}
 
+	// Examine columns that are not in the primary key any more, which kept them from being nullable
+	for _, desiredColumn := range desired.table.columns {
+		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
+		if currentColumn == nil || !leavesPrimaryKey(*currentColumn, currentTable, desired.table) || g.notNull(desiredColumn) {
+			continue
+		}
+		switch g.mode {
+		case GeneratorModeMysql:
+			desiredColumn.autoIncrement = false
+			definition, err := g.generateColumnDefinition(desiredColumn, false)
+			if err != nil {
+				return ddls, err
+			}
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), definition))
+		case GeneratorModePostgres:
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name)))
+		default:
+		}
+	}
+
 	// Examine each index
 	for _, desiredIndex := range desired.table.indexes {
 		if desiredIndex.primary {
@@ -1186,6 +1212,12 @@ func isPrimaryKey(column Column, table Table) bool {
 	return false
 }
 
+// The column is in the primary key of the current table, but not in that of the desired one
+func leavesPrimaryKey(currentColumn Column, currentTable Table, desiredTable Table) bool {
+	desiredColumn := findColumnByName(desiredTable.columns, currentColumn.name)
+	return desiredColumn != nil && isPrimaryKey(currentColumn, currentTable) && !isPrimaryKey(*desiredColumn, desiredTable)
+}
+
 // Destructively modify table1 to have table2 columns/indexes
 func mergeTable(table1 *Table, table2 Table) {
 	for _, column := range table2.columns {
-- 
2.43.0


From 09cc61377b7eb05227fc8af3cb135c8a521bf0b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 66/84] fix: let the primary key move to another column

---
 schema/generator.go | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f1fd863..ceda120 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -820,24 +820,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	ddls := []string{}
 
 	if currentIndex.primary {
-		var primaryKeyColumn *Column
-		for _, column := range desiredTable.columns {
-			if column.keyOption == ColumnKeyPrimary {
-				primaryKeyColumn = &column
-				break
-			}
-		}
-
-		if primaryKeyColumn == nil {
-			// If nil, it will be `DROP COLUMN`-ed and we can usually ignore it.
-			// MSSQL needs to drop it explicitly first, which generateDDLsForCreateTable does.
-		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
-			// TODO: handle this. Rename primary key column...?
-			return ddls, fmt.Errorf(
-				"primary key column name of '%s' should be '%s' but currently '%s'. This is not handled yet.",
-				currentTable.name, primaryKeyColumn.name, currentIndex.columns[0].column,
-			)
-		}
+		// generateDDLsForCreateTable has examined it.
 	} else if currentIndex.unique {
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
-- 
2.43.0


From d76643d3492c9776ca96eb656b87e102db5cce85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 67/84] fix: primary keys and indexes of SQL Server are
 clustered as they are declared

---
 schema/generator.go | 3 +++
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ceda120..3670cc6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1571,6 +1571,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 	if indexA.primary != indexB.primary {
 		return false
 	}
+	if indexA.clustered != indexB.clustered {
+		return false
+	}
 	for len(indexA.columns) != len(indexB.columns) {
 		return false
 	}
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index fd85de2..22dd633 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -5187,7 +5187,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1739
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true, Clustered: true} // CLUSTERED by default
 		}
 	case 315:
 		yyDollar = yyS[yypt-3 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index fc5c124..b073483 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1737,7 +1737,7 @@ index_partition_opt:
 index_info:
   PRIMARY KEY
   {
-    $$ = &IndexInfo{Type: string($1) + " " + string($2), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
+    $$ = &IndexInfo{Type: string($1) + " " + string($2), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true, Clustered: true} // CLUSTERED by default
   }
 | SPATIAL index_or_key ID
   {
-- 
2.43.0


From 90318e965f287e658417acfe29aee6a2b18995f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 68/84] fix: keep the name of a primary key of its own in
 PostgreSQL, and change it

---
 adapter/postgres/postgres.go | 26 ++++++++++++++------------
 schema/generator.go          | 31 ++++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 8ada0ec..044cd89 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -103,11 +103,11 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	pkeyCols, err := d.getPrimaryKeyColumns(table)
+	pkeyName, pkeyCols, err := d.getPrimaryKeyColumns(table)
 	if err != nil {
 		return "", err
 	}
-	indexDefs, err := d.getIndexDefs(table)
+	indexDefs, err := d.getIndexDefs(table, pkeyName)
 	if err != nil {
 		return "", err
 	}
@@ -119,10 +119,10 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return buildDumpTableDDL(table, cols, pkeyCols, indexDefs, foreginDefs, policyDefs), nil
+	return buildDumpTableDDL(table, cols, pkeyName, pkeyCols, indexDefs, foreginDefs, policyDefs), nil
 }
 
-func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
+func buildDumpTableDDL(table string, columns []column, pkeyName string, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
 	var queryBuilder strings.Builder
 	schema, name := splitTableName(table)
 	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s.%s (", quoteName(schema), quoteName(name))
@@ -153,6 +153,9 @@ func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, fore
 	}
 	if len(pkeyCols) > 0 {
 		fmt.Fprint(&queryBuilder, ",\n"+indent)
+		if pkeyName != name+"_pkey" {
+			fmt.Fprintf(&queryBuilder, "CONSTRAINT %s ", quoteName(pkeyName))
+		}
 		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (\"%s\")", strings.Join(pkeyCols, "\", \""))
 	}
 	fmt.Fprintf(&queryBuilder, "\n);\n")
@@ -274,7 +277,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	return cols, nil
 }
 
-func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
+func (d *PostgresDatabase) getIndexDefs(table string, pkeyName string) ([]string, error) {
 	const query = "SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2"
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -290,8 +293,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
-		indexName = strings.Trim(indexName, `" `)
-		if strings.HasSuffix(indexName, "_pkey") {
+		if indexName == pkeyName { // "" if there is no primary key
 			continue
 		}
 		indexes = append(indexes, indexdef)
@@ -302,7 +304,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	return indexes, nil
 }
 
-func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error) {
+func (d *PostgresDatabase) getPrimaryKeyColumns(table string) (string, []string, error) {
 	const query = `SELECT
 	tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name
 FROM
@@ -315,7 +317,7 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		return nil, err
+		return "", nil, err
 	}
 	defer rows.Close()
 
@@ -325,14 +327,14 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		var columnName string
 		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName)
 		if err != nil {
-			return nil, err
+			return "", nil, err
 		}
 		columnNames = append(columnNames, columnName)
 	}
 	if err := rows.Err(); err != nil {
-		return nil, err
+		return "", nil, err
 	}
-	return columnNames, nil
+	return constraintName, columnNames, nil
 }
 
 // refs: https://gist.github.com/PickledDragon/dd41f4e72b428175354d
diff --git a/schema/generator.go b/schema/generator.go
index 3670cc6..e303a55 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -496,14 +496,13 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	// Examine primary key
 	currentPrimaryKey := currentTable.PrimaryKey()
 	desiredPrimaryKey := desired.table.PrimaryKey()
-	if !areSamePrimaryKeys(currentPrimaryKey, desiredPrimaryKey) {
+	if !areSamePrimaryKeys(currentPrimaryKey, desiredPrimaryKey) || g.isPrimaryKeyRenamed(currentTable, desired.table) {
 		if currentPrimaryKey != nil {
 			switch g.mode {
 			case GeneratorModeMysql:
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY", g.escapeTableName(desired.table.name)))
 			case GeneratorModePostgres:
-				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
-				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(primaryKeyName(*currentPrimaryKey, currentTable))))
 			case GeneratorModeMssql:
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
 			default:
@@ -1026,6 +1025,8 @@ func (g *Generator) generateAddIndex(table string, index Index) string {
 
 		if !index.primary {
 			ddl += fmt.Sprintf(" %s", g.escapeSQLName(index.name))
+		} else if g.mode == GeneratorModePostgres && index.name != "PRIMARY" {
+			ddl = fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s %s", g.escapeTableName(table), g.escapeSQLName(index.name), index.indexType)
 		}
 		ddl += fmt.Sprintf(" (%s)%s", strings.Join(columns, ", "), optionDefinition)
 		return ddl
@@ -1195,6 +1196,30 @@ func isPrimaryKey(column Column, table Table) bool {
 	return false
 }
 
+// The name a primary key has on PostgreSQL
+func primaryKeyName(primaryKey Index, table Table) string {
+	if primaryKey.name == "PRIMARY" { // not named
+		return table.name[strings.Index(table.name, ".")+1:] + "_pkey" // without schema
+	}
+	return primaryKey.name
+}
+
+// The desired primary key is named, and differently
+func (g *Generator) isPrimaryKeyRenamed(currentTable Table, desiredTable Table) bool {
+	current, desired := currentTable.PrimaryKey(), desiredTable.PrimaryKey()
+	if current == nil || desired == nil || desired.name == "PRIMARY" {
+		return false
+	}
+	switch g.mode {
+	case GeneratorModePostgres:
+		return !strings.EqualFold(primaryKeyName(*current, currentTable), primaryKeyName(*desired, desiredTable))
+	case GeneratorModeMssql:
+		return !strings.EqualFold(current.name, desired.name)
+	default:
+		return false
+	}
+}
+
 // The column is in the primary key of the current table, but not in that of the desired one
 func leavesPrimaryKey(currentColumn Column, currentTable Table, desiredTable Table) bool {
 	desiredColumn := findColumnByName(desiredTable.columns, currentColumn.name)
-- 
2.43.0


From 4b2674915eb375cd0f8187cf828879ff27a6cf60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 69/84] fix: export the conditions of policies in parentheses

---
 adapter/postgres/postgres.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 044cd89..a8cfdb5 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -416,10 +416,10 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 			quoteName(policyName), quoteName(schema), quoteName(table), permissive, cmd, roles,
 		)
 		if using.Valid {
-			def += fmt.Sprintf(" USING %s", using.String)
+			def += fmt.Sprintf(" USING %s", parenthesize(using.String))
 		}
 		if withCheck.Valid {
-			def += fmt.Sprintf(" WITH CHECK %s", withCheck.String)
+			def += fmt.Sprintf(" WITH CHECK %s", parenthesize(withCheck.String))
 		}
 		defs = append(defs, def)
 	}
@@ -429,6 +429,33 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 	return defs, nil
 }
 
+// PostgreSQL shows an expression such as a constant or a function call without the
+// parentheses that CREATE POLICY wants around it.
+func parenthesize(expr string) string {
+	if !strings.HasPrefix(expr, "(") {
+		return "(" + expr + ")"
+	}
+	depth, quote := 0, rune(0)
+	for i, c := range expr {
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+		}
+		if depth == 0 && i < len(expr)-1 {
+			return "(" + expr + ")"
+		}
+	}
+	return expr
+}
+
 func (d *PostgresDatabase) DB() *sql.DB {
 	return d.db
 }
-- 
2.43.0


From 329378eecef7c6994a6a4aad5453e301b4f48e5a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 70/84] fix: compare policies by their defaults where options
 are left out

---
 schema/generator.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index e303a55..7bde72a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1664,10 +1664,10 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 }
 
 func areSamePolicies(policyA, policyB Policy) bool {
-	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
+	if normalizePolicyOption(policyA.scope, "all") != normalizePolicyOption(policyB.scope, "all") {
 		return false
 	}
-	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
+	if normalizePolicyOption(policyA.permissive, "permissive") != normalizePolicyOption(policyB.permissive, "permissive") {
 		return false
 	}
 	if foldSQL(policyA.using, strings.ToLower) != foldSQL(policyB.using, strings.ToLower) &&
@@ -1695,6 +1695,14 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	return true
 }
 
+// Policies of PostgreSQL are PERMISSIVE and FOR ALL unless they say otherwise.
+func normalizePolicyOption(option string, defaultOption string) string {
+	if option == "" {
+		return defaultOption
+	}
+	return strings.ToLower(option)
+}
+
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
-- 
2.43.0


From f634c8c527489295386071da0c2e8a0fef750813 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 71/84] fix: detect the charset of a table whose name begins
 with a letter of "charset"

---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index a24ee41..a0d9f06 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -565,7 +565,7 @@ func referencedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
 		if strings.HasPrefix(option, "charset=") {
-			return strings.TrimLeft(option, "charset=")
+			return strings.TrimPrefix(option, "charset=")
 		}
 	}
 	// TODO: consider returning err when charset is missing
-- 
2.43.0


From cc74d42c2ff1f3119d60c8d5ad7d81ca761f0fe7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 72/84] fix: compare the character set of a column that is also
 the table's own

---
 schema/ast.go       |  1 +
 schema/generator.go | 10 +++++++++-
 schema/parser.go    |  1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/schema/ast.go b/schema/ast.go
index 6d259a6..3a04b36 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -71,6 +71,7 @@ type Column struct {
 	identity       *Identity
 	sequence       *Sequence
 	comment        *Value // for MySQL
+	defaultCharset string // for MySQL, of the table
 	// TODO: keyopt
 	// XXX: zerofill?
 }
diff --git a/schema/generator.go b/schema/generator.go
index 7bde72a..3165426 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1402,12 +1402,20 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
 		(current.check == desired.check) &&
-		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
+		(desired.charset == "" || shownCharset(current) == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
 		(desired.collate == "" || current.collate == desired.collate) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
 		reflect.DeepEqual(current.onUpdate, desired.onUpdate) &&
 		commentOf(current) == commentOf(desired)
 }
 
+// SHOW CREATE TABLE leaves out the character set of a column which is the table's own.
+func shownCharset(column Column) string {
+	if column.charset == "" {
+		return column.defaultCharset
+	}
+	return column.charset
+}
+
 func commentOf(column Column) string {
 	if column.comment == nil {
 		return ""
diff --git a/schema/parser.go b/schema/parser.go
index a0d9f06..413be67 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -149,6 +149,7 @@ func parseTable(mode GeneratorMode, ddl string, stmt *sqlparser.DDL) (Table, err
 			sequence:      parseIdentitySequence(parsedCol.Type.Identity),
 			comment:       parseValue(parsedCol.Type.Comment),
 		}
+		column.defaultCharset = detectCharset(*stmt.TableSpec)
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
 				definition:        formatNode(mode, ddl, parsedCol.Type.Check.Where.Expr),
-- 
2.43.0


From e7c9b5ed4b7f8d893d7ea8efcd923178a48d0a19 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 73/84] fix: compare RESTRICT and NO ACTION of MySQL's foreign
 keys as the same

---
 schema/generator.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 3165426..ce80727 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1712,19 +1712,19 @@ func normalizePolicyOption(option string, defaultOption string) string {
 }
 
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
-	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
-		return "NO ACTION"
-	} else {
-		return onUpdate
-	}
+	return g.normalizeReferenceOption(onUpdate)
 }
 
 func (g *Generator) normalizeOnDelete(onDelete string) string {
-	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onDelete == "" {
+	return g.normalizeReferenceOption(onDelete)
+}
+
+// NO ACTION is the default of every database, and what RESTRICT means to MySQL, which shows neither of the two always.
+func (g *Generator) normalizeReferenceOption(option string) string {
+	if option == "" || (g.mode == GeneratorModeMysql && strings.ToUpper(option) == "RESTRICT") {
 		return "NO ACTION"
-	} else {
-		return onDelete
 	}
+	return option
 }
 
 // TODO: Use interface to avoid defining following functions?
-- 
2.43.0


From 9cafb1e84eb661fe4a238529de810cae845adc73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:01:57 +0000
Subject: [PATCH 74/84] fix: understand foreign keys' SET DEFAULT

---
 sqlparser/parser.go | 4622 ++++++++++++++++++++++---------------------
 sqlparser/parser.y  |    4 +
 2 files changed, 2318 insertions(+), 2308 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 22dd633..e19a104 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -736,423 +736,395 @@ var yyExca = [...]int{
 	121, 104,
 	-2, 94,
 	-1, 36,
-	153, 438,
-	154, 438,
-	-2, 428,
+	153, 439,
+	154, 439,
+	-2, 429,
 	-1, 272,
-	109, 771,
-	-2, 767,
-	-1, 273,
 	109, 772,
 	-2, 768,
+	-1, 273,
+	109, 773,
+	-2, 769,
 	-1, 343,
-	80, 965,
+	80, 966,
 	-2, 58,
 	-1, 344,
-	80, 916,
+	80, 917,
 	-2, 59,
 	-1, 349,
-	80, 895,
-	-2, 738,
+	80, 896,
+	-2, 739,
 	-1, 351,
-	80, 939,
-	-2, 740,
+	80, 940,
+	-2, 741,
 	-1, 676,
 	51, 41,
 	53, 41,
 	-2, 43,
 	-1, 822,
-	109, 774,
-	-2, 770,
+	109, 775,
+	-2, 771,
 	-1, 1065,
 	5, 28,
-	-2, 573,
+	-2, 574,
 	-1, 1090,
 	5, 27,
-	-2, 712,
+	-2, 713,
 	-1, 1191,
 	5, 27,
 	-2, 64,
 	-1, 1408,
 	5, 28,
-	-2, 713,
+	-2, 714,
 	-1, 1489,
 	5, 27,
-	-2, 715,
-	-1, 1613,
-	5, 28,
 	-2, 716,
+	-1, 1614,
+	5, 28,
+	-2, 717,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14898
+const yyLast = 14897
 
 var yyAct = [...]int{
-	273, 754, 1538, 1502, 1499, 1603, 1000, 1565, 603, 1093,
-	1542, 886, 1305, 1278, 302, 1306, 1427, 962, 488, 798,
-	1127, 277, 1414, 904, 1279, 928, 276, 1193, 698, 670,
-	1275, 1149, 251, 934, 1008, 89, 995, 1620, 89, 668,
-	1155, 927, 948, 887, 1109, 522, 1251, 53, 1124, 245,
-	847, 858, 66, 1057, 520, 348, 760, 990, 1182, 602,
-	3, 1179, 89, 89, 353, 943, 686, 1098, 874, 353,
-	535, 541, 353, 353, 855, 923, 824, 883, 89, 462,
-	89, 685, 342, 657, 672, 329, 89, 704, 700, 1039,
-	626, 275, 339, 246, 247, 248, 249, 555, 260, 337,
-	697, 328, 547, 964, 1163, 52, 1684, 250, 617, 345,
-	1331, 264, 577, 578, 570, 571, 572, 573, 574, 575,
-	576, 569, 330, 961, 579, 569, 579, 1645, 579, 1433,
-	335, 1319, 977, 1677, 563, 270, 566, 489, 490, 857,
-	1440, 1718, 581, 582, 583, 584, 585, 586, 587, 1318,
-	564, 565, 562, 568, 567, 577, 578, 570, 571, 572,
-	573, 574, 575, 576, 569, 86, 1661, 579, 1558, 568,
-	567, 577, 578, 570, 571, 572, 573, 574, 575, 576,
-	569, 963, 1147, 579, 1714, 1611, 1570, 1183, 1184, 1705,
-	1569, 1001, 1649, 338, 1660, 1610, 1399, 1270, 1634, 1402,
-	279, 1670, 499, 1398, 534, 1301, 1302, 687, 501, 688,
-	502, 84, 80, 81, 82, 1300, 509, 301, 572, 573,
-	574, 575, 576, 569, 89, 1162, 579, 917, 353, 353,
-	353, 353, 789, 353, 48, 26, 27, 918, 919, 790,
-	353, 568, 567, 577, 578, 570, 571, 572, 573, 574,
-	575, 576, 569, 530, 1455, 579, 1454, 1159, 1117, 1161,
-	1160, 1116, 333, 1165, 1118, 1395, 534, 353, 568, 567,
-	577, 578, 570, 571, 572, 573, 574, 575, 576, 569,
-	966, 347, 579, 523, 524, 525, 492, 528, 1478, 496,
-	497, 1676, 978, 1678, 532, 878, 968, 1351, 1350, 991,
-	1391, 1389, 543, 568, 567, 577, 578, 570, 571, 572,
-	573, 574, 575, 576, 569, 1540, 544, 579, 244, 1598,
-	761, 1518, 489, 490, 762, 763, 1361, 1362, 89, 1588,
-	580, 57, 580, 1703, 580, 89, 89, 89, 526, 527,
-	1713, 353, 1604, 1229, 884, 1430, 1605, 353, 1635, 1486,
-	1366, 944, 1435, 534, 511, 1226, 59, 60, 61, 62,
-	63, 1375, 1434, 1141, 83, 1367, 945, 1140, 1312, 1559,
-	1129, 1692, 504, 580, 568, 567, 577, 578, 570, 571,
-	572, 573, 574, 575, 576, 569, 345, 1549, 579, 580,
+	273, 1566, 1539, 1499, 522, 1604, 1093, 754, 1502, 1000,
+	1621, 1124, 1543, 886, 302, 1414, 1427, 603, 1278, 602,
+	3, 798, 962, 1127, 1306, 904, 1305, 488, 1193, 698,
+	977, 1279, 928, 670, 1149, 89, 1275, 276, 89, 251,
+	668, 934, 1155, 245, 995, 1008, 923, 948, 927, 1251,
+	53, 858, 277, 887, 1057, 855, 1109, 348, 66, 1182,
+	990, 760, 89, 89, 353, 279, 847, 250, 345, 353,
+	270, 943, 353, 353, 1179, 335, 686, 1098, 89, 874,
+	89, 824, 535, 541, 857, 462, 89, 246, 247, 248,
+	249, 685, 342, 883, 672, 657, 329, 547, 697, 617,
+	275, 704, 328, 700, 626, 1039, 1163, 330, 339, 555,
+	86, 264, 52, 964, 961, 260, 1685, 1331, 569, 1646,
+	1246, 579, 489, 490, 579, 1433, 1319, 333, 572, 573,
+	574, 575, 576, 569, 1318, 1440, 579, 1719, 338, 1662,
 	568, 567, 577, 578, 570, 571, 572, 573, 574, 575,
-	576, 569, 1313, 494, 579, 78, 77, 1321, 78, 1134,
-	631, 632, 905, 907, 1463, 768, 594, 595, 596, 597,
-	598, 599, 600, 1058, 619, 620, 621, 622, 623, 624,
-	625, 1570, 580, 683, 1669, 491, 677, 1609, 1639, 1108,
-	992, 762, 763, 978, 1132, 347, 347, 347, 347, 1107,
-	347, 1641, 971, 1227, 1106, 1225, 752, 347, 652, 500,
-	223, 580, 79, 1230, 1146, 592, 593, 676, 1228, 1709,
-	1636, 1428, 1429, 1431, 944, 590, 570, 571, 572, 573,
-	574, 575, 576, 569, 557, 1563, 579, 906, 580, 945,
-	793, 1411, 89, 1238, 1073, 1051, 796, 559, 554, 89,
-	510, 89, 353, 1345, 89, 49, 1581, 89, 1034, 944,
-	1580, 89, 1579, 353, 353, 353, 353, 353, 353, 353,
-	353, 1578, 515, 580, 945, 925, 924, 353, 353, 503,
-	1577, 1576, 89, 553, 552, 333, 567, 577, 578, 570,
-	571, 572, 573, 574, 575, 576, 569, 353, 1575, 579,
-	554, 89, 1573, 1358, 1346, 75, 767, 353, 347, 552,
-	1096, 689, 1272, 1234, 691, 751, 777, 778, 779, 780,
-	781, 782, 783, 784, 785, 554, 801, 825, 799, 800,
-	875, 786, 787, 1126, 757, 533, 517, 1035, 519, 545,
-	1621, 875, 831, 1080, 580, 1637, 1638, 1640, 1642, 1643,
-	775, 353, 1517, 70, 73, 821, 829, 830, 828, 1622,
-	580, 549, 506, 507, 508, 822, 516, 518, 71, 74,
-	1520, 1516, 753, 1125, 553, 552, 1137, 1695, 1069, 764,
-	1068, 765, 867, 870, 769, 72, 68, 772, 876, 1233,
-	1671, 554, 1126, 1126, 803, 1126, 493, 553, 552, 820,
-	1070, 50, 89, 1694, 818, 89, 89, 89, 89, 89,
-	534, 827, 791, 1675, 554, 862, 76, 89, 631, 632,
-	89, 850, 1674, 1136, 89, 888, 553, 552, 1673, 89,
-	89, 810, 1672, 353, 852, 853, 1574, 1448, 814, 816,
-	817, 1166, 580, 554, 815, 1623, 353, 823, 553, 552,
-	832, 833, 834, 835, 836, 837, 838, 839, 840, 841,
-	842, 843, 844, 845, 846, 554, 872, 495, 912, 347,
-	498, 1619, 880, 1048, 1049, 1050, 1528, 327, 345, 862,
-	347, 347, 347, 347, 347, 347, 347, 347, 514, 1485,
-	889, 929, 1457, 892, 347, 347, 863, 864, 1456, 901,
-	1327, 1188, 871, 353, 910, 580, 69, 353, 909, 353,
-	89, 1186, 89, 826, 805, 914, 915, 89, 848, 89,
-	849, 1246, 89, 353, 557, 1166, 932, 347, 890, 891,
-	1452, 893, 885, 1377, 795, 997, 879, 1252, 881, 882,
-	1180, 568, 567, 577, 578, 570, 571, 572, 573, 574,
-	575, 576, 569, 993, 994, 579, 1143, 553, 552, 21,
-	913, 1004, 1447, 1006, 1274, 1571, 1166, 1316, 854, 794,
-	1254, 1596, 1722, 534, 554, 1493, 1711, 1032, 868, 868,
-	1424, 1704, 1424, 1683, 868, 1315, 553, 552, 1314, 1135,
-	1206, 1119, 821, 825, 1424, 1682, 1424, 1668, 979, 980,
-	981, 982, 822, 554, 1003, 333, 333, 333, 333, 333,
-	1596, 1667, 1664, 1663, 1591, 255, 1656, 534, 1590, 1040,
-	333, 868, 1041, 1424, 1653, 23, 1256, 1493, 1601, 333,
-	1261, 851, 1255, 1424, 1592, 1493, 1526, 1253, 1493, 534,
-	1007, 774, 1012, 1259, 1493, 1494, 1534, 1029, 1088, 1030,
-	347, 1089, 1031, 1424, 1423, 1053, 1257, 1258, 773, 353,
-	1207, 1203, 89, 347, 1208, 1205, 1204, 1297, 534, 74,
-	1111, 50, 1113, 758, 1260, 1262, 1410, 534, 353, 756,
-	1209, 1354, 1353, 1348, 1349, 1533, 1202, 1348, 1347, 353,
-	1063, 534, 1079, 1090, 1396, 654, 534, 1529, 1047, 680,
-	353, 1112, 512, 1121, 860, 534, 696, 695, 23, 89,
-	1103, 505, 1597, 1449, 1596, 1054, 1055, 1056, 1442, 1276,
-	998, 1338, 1094, 929, 347, 54, 347, 292, 291, 294,
-	295, 296, 297, 1114, 1488, 653, 293, 298, 1157, 681,
-	347, 679, 1095, 1095, 1094, 1241, 1062, 1075, 1072, 911,
-	860, 679, 353, 1406, 50, 1142, 1130, 1131, 1133, 654,
-	654, 580, 1077, 1063, 347, 23, 568, 567, 577, 578,
-	570, 571, 572, 573, 574, 575, 576, 569, 1441, 826,
-	579, 1357, 353, 654, 1094, 89, 89, 1063, 1352, 1074,
-	1071, 1459, 1458, 89, 1120, 1185, 1181, 1194, 916, 1063,
-	1187, 682, 353, 1173, 797, 1175, 1176, 1177, 1178, 1191,
-	266, 50, 967, 1199, 50, 257, 1715, 1200, 1681, 1198,
-	568, 567, 577, 578, 570, 571, 572, 573, 574, 575,
-	576, 569, 1658, 1594, 579, 1593, 1231, 1585, 1584, 1546,
-	1527, 1472, 353, 353, 968, 996, 1337, 1243, 1336, 1334,
-	1277, 1324, 1167, 1168, 1280, 1170, 1171, 1172, 1245, 1291,
-	888, 50, 333, 1189, 1190, 1250, 888, 1264, 991, 1267,
-	1263, 353, 1299, 353, 353, 1271, 1110, 1244, 1148, 822,
-	802, 1123, 1099, 1100, 1036, 984, 983, 1285, 1287, 65,
-	755, 1286, 1566, 1460, 1276, 347, 1197, 1102, 1304, 771,
-	759, 1282, 531, 898, 1317, 896, 1128, 1023, 899, 1298,
-	897, 900, 1303, 663, 664, 809, 929, 1138, 929, 1105,
-	1022, 1104, 895, 1239, 894, 261, 262, 1157, 1689, 548,
-	1322, 1320, 1328, 1659, 1237, 1687, 1046, 1045, 859, 861,
-	89, 353, 546, 1174, 1247, 1248, 694, 1027, 89, 513,
-	1326, 1473, 536, 353, 877, 1404, 1021, 1265, 1266, 1005,
-	1268, 1269, 353, 537, 659, 662, 663, 664, 660, 347,
-	661, 665, 799, 800, 89, 770, 1470, 1325, 1196, 999,
-	353, 667, 548, 1364, 258, 259, 580, 1044, 1469, 353,
-	1360, 1311, 89, 1339, 1340, 1043, 1342, 1343, 1344, 347,
-	1379, 1368, 252, 1679, 903, 1018, 1015, 1016, 1552, 1014,
-	1370, 253, 54, 1465, 1376, 1466, 1467, 1468, 1551, 347,
-	550, 1476, 1095, 1583, 1373, 1310, 1309, 1464, 1009, 1010,
-	1011, 1380, 1582, 1560, 1243, 1139, 792, 1025, 1028, 56,
-	580, 347, 353, 1387, 353, 353, 353, 89, 353, 1544,
-	7, 58, 1341, 1201, 353, 1365, 868, 678, 1405, 1284,
-	1110, 51, 868, 538, 542, 1, 1417, 1418, 1419, 1413,
-	1355, 1545, 6, 1543, 5, 353, 1420, 1432, 1363, 1121,
-	560, 1422, 1541, 1589, 1145, 1587, 67, 1436, 347, 1648,
-	347, 1307, 1595, 1330, 1359, 1195, 1210, 1439, 1002, 929,
-	1192, 1017, 1020, 1602, 1372, 1616, 1157, 1500, 353, 353,
-	1445, 1443, 936, 926, 604, 461, 353, 64, 1059, 1572,
-	1437, 464, 937, 615, 935, 933, 353, 1164, 965, 703,
-	701, 702, 1382, 1019, 1462, 1461, 699, 705, 568, 567,
-	577, 578, 570, 571, 572, 573, 574, 575, 576, 569,
-	231, 340, 579, 1194, 929, 666, 690, 551, 1356, 1224,
-	1223, 353, 353, 1013, 1232, 788, 1033, 1450, 529, 233,
-	1369, 1280, 1024, 588, 1042, 353, 1115, 303, 47, 1371,
-	346, 1487, 1644, 1283, 540, 353, 1550, 1060, 1026, 1475,
-	1513, 1061, 333, 1078, 1498, 1514, 614, 1374, 1065, 1066,
-	1067, 873, 278, 813, 1523, 1521, 347, 1076, 290, 353,
-	353, 89, 1082, 1530, 353, 1083, 1084, 1085, 1086, 1489,
-	287, 1535, 289, 353, 288, 47, 1515, 804, 1087, 561,
-	1451, 1519, 1453, 256, 268, 332, 650, 658, 656, 334,
-	655, 1101, 1097, 331, 353, 1547, 1240, 1401, 1557, 808,
-	25, 55, 1561, 1280, 1567, 263, 19, 18, 17, 1415,
-	20, 1415, 1415, 1415, 16, 1421, 15, 14, 1477, 29,
-	1503, 347, 13, 12, 11, 10, 9, 1531, 8, 1532,
-	4, 1479, 1480, 1505, 1481, 1482, 1483, 254, 22, 2,
-	0, 0, 1415, 0, 0, 0, 0, 353, 0, 0,
-	1562, 0, 1599, 0, 0, 0, 0, 0, 0, 1600,
-	0, 1607, 0, 0, 353, 0, 0, 353, 0, 0,
-	0, 353, 1612, 1617, 0, 347, 347, 0, 0, 0,
-	0, 0, 888, 1471, 0, 353, 353, 1631, 0, 0,
-	0, 1537, 0, 1474, 353, 353, 0, 353, 1632, 1629,
-	1630, 1504, 0, 1654, 0, 353, 1646, 1647, 580, 1652,
-	0, 0, 0, 811, 812, 1624, 1625, 1626, 1627, 1628,
-	659, 662, 663, 664, 660, 0, 661, 665, 1491, 1492,
-	1099, 1100, 0, 1506, 1507, 1508, 1509, 1510, 1511, 1512,
-	0, 0, 1307, 0, 0, 0, 0, 0, 1249, 0,
-	0, 0, 1522, 0, 1680, 521, 521, 521, 521, 353,
-	521, 1685, 1686, 353, 0, 0, 604, 521, 1691, 865,
-	866, 1688, 0, 1693, 0, 0, 1307, 1536, 1665, 1666,
-	89, 1539, 353, 0, 47, 1698, 0, 0, 1701, 0,
-	1415, 0, 1700, 89, 0, 1296, 0, 0, 0, 589,
-	0, 1708, 591, 0, 1699, 1712, 1710, 0, 0, 0,
-	353, 1564, 0, 0, 0, 0, 353, 0, 1719, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 601,
-	0, 605, 606, 607, 608, 609, 610, 611, 612, 613,
-	0, 616, 618, 618, 618, 618, 618, 618, 618, 618,
-	922, 646, 647, 648, 649, 1716, 0, 1151, 1152, 1153,
-	1501, 0, 669, 0, 1307, 1156, 1154, 299, 300, 969,
-	970, 972, 973, 974, 0, 975, 976, 0, 868, 0,
-	0, 1614, 0, 0, 1615, 0, 0, 0, 1618, 0,
-	0, 0, 985, 986, 987, 0, 988, 539, 989, 0,
-	0, 0, 1539, 1307, 961, 0, 0, 0, 0, 0,
-	627, 1307, 1307, 0, 1650, 0, 0, 0, 0, 0,
-	0, 0, 1657, 1707, 0, 0, 950, 0, 0, 0,
-	1381, 0, 87, 0, 0, 243, 0, 1383, 0, 0,
-	957, 0, 946, 629, 0, 0, 0, 0, 947, 1392,
-	1393, 1394, 0, 1720, 1397, 1037, 1038, 267, 542, 87,
-	87, 0, 0, 0, 0, 0, 0, 1407, 1408, 1409,
-	0, 1412, 0, 0, 0, 87, 1307, 87, 0, 0,
-	1690, 1503, 0, 87, 634, 635, 636, 637, 638, 639,
-	640, 641, 642, 643, 1505, 0, 0, 0, 0, 1415,
-	0, 953, 0, 949, 958, 630, 0, 0, 0, 0,
-	955, 954, 0, 644, 628, 0, 0, 0, 1446, 0,
-	633, 1064, 0, 0, 0, 0, 0, 347, 0, 521,
-	0, 0, 0, 1539, 0, 0, 1081, 1158, 1162, 0,
-	521, 521, 521, 521, 521, 521, 521, 521, 0, 0,
-	0, 0, 0, 1329, 521, 521, 0, 0, 1151, 1152,
-	1153, 0, 1504, 0, 0, 0, 1156, 1154, 299, 300,
-	1159, 0, 1161, 1160, 0, 0, 1150, 0, 0, 0,
-	0, 1151, 1152, 1153, 0, 0, 0, 1484, 0, 1156,
-	1154, 299, 300, 645, 1506, 1507, 1508, 1509, 1510, 1511,
-	1512, 0, 0, 1495, 1496, 1497, 0, 0, 0, 473,
-	0, 0, 0, 0, 0, 0, 0, 951, 0, 47,
-	0, 87, 0, 952, 1525, 0, 0, 477, 471, 0,
-	0, 0, 0, 605, 1169, 0, 0, 0, 0, 1216,
-	0, 0, 0, 0, 0, 0, 463, 0, 0, 0,
-	0, 0, 0, 0, 0, 466, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1553, 1554, 1555, 1556, 0,
-	0, 0, 0, 959, 0, 960, 0, 0, 0, 0,
-	0, 0, 334, 334, 334, 334, 334, 0, 956, 0,
-	0, 0, 0, 0, 0, 0, 0, 669, 0, 908,
-	0, 0, 0, 0, 1217, 0, 334, 0, 0, 1219,
-	1212, 1213, 485, 1220, 1215, 1214, 0, 0, 1222, 1218,
-	0, 1568, 0, 0, 0, 87, 0, 0, 0, 1221,
-	467, 0, 87, 674, 87, 1211, 0, 0, 1158, 1162,
-	0, 1273, 0, 1608, 479, 0, 0, 0, 1613, 465,
-	0, 0, 0, 0, 0, 0, 1288, 1289, 0, 0,
-	1290, 1158, 1162, 1292, 0, 0, 0, 478, 483, 0,
-	0, 1159, 1633, 1161, 1160, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 521, 0, 521, 0, 1655, 0,
-	481, 482, 468, 486, 1159, 0, 1161, 1160, 0, 0,
-	521, 0, 0, 0, 0, 0, 484, 480, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	474, 0, 1333, 1335, 23, 24, 48, 26, 27, 0,
-	0, 0, 0, 0, 0, 0, 0, 487, 0, 0,
-	0, 0, 0, 42, 0, 0, 0, 28, 472, 1052,
-	0, 476, 0, 470, 0, 0, 0, 0, 0, 0,
-	0, 0, 229, 0, 0, 0, 37, 0, 0, 0,
-	50, 0, 0, 0, 0, 0, 1706, 0, 0, 0,
-	0, 469, 0, 0, 0, 475, 239, 0, 0, 87,
-	0, 0, 0, 0, 0, 1378, 87, 0, 87, 0,
-	0, 87, 0, 0, 87, 0, 1723, 1724, 776, 0,
-	0, 1091, 1092, 0, 0, 1384, 1385, 0, 1386, 0,
-	0, 0, 1388, 0, 1390, 0, 0, 0, 0, 87,
-	30, 31, 33, 32, 35, 1403, 0, 224, 0, 334,
-	0, 0, 604, 226, 0, 0, 0, 0, 87, 0,
-	232, 228, 0, 0, 36, 43, 44, 776, 0, 45,
-	46, 34, 0, 0, 0, 0, 0, 0, 0, 0,
-	1425, 1426, 0, 0, 0, 0, 0, 0, 0, 0,
-	230, 0, 0, 234, 1438, 0, 0, 0, 0, 0,
-	0, 0, 0, 38, 39, 0, 40, 41, 0, 267,
-	0, 0, 0, 0, 267, 267, 0, 0, 869, 869,
-	267, 0, 0, 0, 869, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 47, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 225, 0, 0, 267, 267, 267, 267, 0, 87,
-	0, 869, 87, 87, 87, 87, 87, 0, 0, 521,
-	0, 0, 0, 0, 902, 0, 0, 87, 0, 0,
-	0, 674, 0, 0, 0, 0, 87, 87, 0, 227,
-	0, 235, 236, 237, 238, 242, 0, 0, 0, 0,
-	241, 240, 0, 0, 0, 0, 0, 49, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1281, 0, 47,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1293, 1294, 1295, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 87, 0, 87,
-	0, 0, 0, 0, 87, 0, 87, 0, 0, 87,
-	1323, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1586, 1332, 0, 0, 0,
-	0, 0, 0, 0, 776, 727, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 267, 0, 0, 0,
-	0, 0, 1606, 604, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 267, 0, 0, 0, 1651, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 334,
-	267, 0, 712, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1400, 0,
-	0, 0, 0, 0, 0, 728, 0, 0, 0, 87,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1702, 634, 635, 636, 637,
-	638, 639, 640, 641, 642, 643, 1144, 744, 745, 0,
+	576, 569, 1678, 501, 579, 502, 337, 563, 1715, 566,
+	1612, 509, 1571, 1706, 1147, 581, 582, 583, 584, 585,
+	586, 587, 534, 564, 565, 562, 568, 567, 577, 578,
+	570, 571, 572, 573, 574, 575, 576, 569, 1001, 1570,
+	579, 963, 1559, 568, 567, 577, 578, 570, 571, 572,
+	573, 574, 575, 576, 569, 1183, 1184, 579, 1650, 568,
+	567, 577, 578, 570, 571, 572, 573, 574, 575, 576,
+	569, 1661, 1611, 579, 89, 1270, 1635, 1402, 353, 353,
+	353, 353, 499, 353, 48, 26, 27, 1162, 1301, 1302,
+	353, 84, 80, 81, 82, 918, 919, 1117, 1398, 534,
+	1116, 1300, 687, 1118, 688, 917, 789, 530, 1455, 1454,
+	1165, 1671, 966, 790, 978, 878, 968, 353, 1478, 1159,
+	1351, 1161, 1160, 1350, 1391, 1389, 544, 1395, 534, 1599,
+	244, 1541, 762, 763, 515, 727, 568, 567, 577, 578,
+	570, 571, 572, 573, 574, 575, 576, 569, 1519, 511,
+	579, 1361, 1362, 1589, 1714, 543, 1704, 489, 490, 1605,
+	1677, 761, 1679, 301, 1229, 568, 567, 577, 578, 570,
+	571, 572, 573, 574, 575, 576, 569, 580, 89, 579,
+	580, 526, 527, 884, 1606, 89, 89, 89, 1312, 1486,
+	590, 353, 580, 1366, 1435, 345, 1434, 353, 517, 1693,
+	519, 594, 595, 596, 597, 598, 599, 600, 1367, 944,
+	580, 1375, 712, 577, 578, 570, 571, 572, 573, 574,
+	575, 576, 569, 1141, 945, 579, 1140, 347, 516, 518,
+	991, 1129, 492, 1550, 1313, 496, 497, 504, 494, 77,
+	78, 78, 491, 1560, 83, 728, 580, 1430, 1321, 1463,
+	333, 768, 1108, 652, 570, 571, 572, 573, 574, 575,
+	576, 569, 676, 580, 579, 619, 620, 621, 622, 623,
+	624, 625, 971, 978, 631, 1107, 632, 1106, 752, 580,
+	1571, 500, 762, 763, 905, 907, 634, 635, 636, 637,
+	638, 639, 640, 641, 642, 643, 1146, 744, 745, 683,
 	746, 747, 748, 750, 749, 729, 730, 731, 735, 733,
-	732, 734, 706, 708, 0, 644, 707, 713, 709, 710,
+	732, 734, 706, 708, 1610, 644, 707, 713, 709, 710,
 	711, 725, 714, 715, 716, 717, 718, 719, 720, 721,
 	722, 723, 724, 726, 736, 737, 738, 739, 740, 741,
-	742, 743, 0, 0, 0, 1444, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 1235, 1236, 1281, 0, 0, 1490, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 0, 0, 0, 0, 645, 0, 0, 0, 0,
-	0, 267, 0, 0, 0, 1524, 0, 0, 0, 0,
-	0, 776, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 869, 0, 0, 0,
-	0, 0, 869, 0, 0, 0, 0, 0, 0, 0,
-	0, 1548, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1281, 0, 47, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 154,
-	0, 92, 0, 556, 0, 0, 0, 0, 116, 0,
-	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 352, 0, 558, 0,
-	0, 0, 0, 0, 0, 105, 0, 87, 0, 0,
-	0, 553, 552, 0, 0, 87, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 554, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 87,
-	0, 0, 203, 1662, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 674, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 1717, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	170, 0, 0, 104, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 449, 439, 87, 408,
-	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
-	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
-	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
-	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
-	395, 427, 453, 0, 0, 0, 352, 0, 930, 931,
-	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
-	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
-	389, 1122, 0, 0, 0, 0, 0, 0, 411, 415,
-	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
-	385, 0, 422, 0, 0, 0, 369, 364, 869, 409,
-	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
-	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
-	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
-	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 1697, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	87, 0, 360, 0, 177, 196, 214, 215, 361, 379,
-	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
-	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
-	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
-	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
-	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	742, 743, 89, 677, 1670, 1444, 223, 79, 1230, 89,
+	514, 89, 353, 1710, 89, 49, 580, 89, 1226, 906,
+	1564, 89, 1399, 353, 353, 353, 353, 353, 353, 353,
+	353, 992, 1411, 1428, 1429, 1431, 1238, 353, 353, 592,
+	593, 1073, 89, 57, 1051, 580, 796, 559, 510, 925,
+	924, 347, 347, 347, 347, 645, 347, 353, 1034, 1345,
+	793, 89, 554, 347, 553, 552, 552, 353, 59, 60,
+	61, 62, 63, 751, 821, 549, 1272, 753, 777, 1582,
+	75, 554, 554, 875, 764, 1581, 765, 825, 1580, 769,
+	557, 580, 772, 801, 568, 567, 577, 578, 570, 571,
+	572, 573, 574, 575, 576, 569, 1579, 1134, 579, 1578,
+	1346, 353, 1577, 1151, 1152, 1153, 1227, 791, 1225, 1576,
+	1132, 1156, 1154, 299, 300, 1636, 775, 822, 70, 73,
+	580, 1228, 1234, 1574, 1358, 862, 810, 1035, 826, 1096,
+	689, 1521, 823, 71, 74, 832, 833, 834, 835, 836,
+	837, 838, 839, 840, 841, 842, 843, 844, 845, 846,
+	72, 68, 89, 1126, 347, 89, 89, 89, 89, 89,
+	691, 803, 944, 867, 870, 820, 818, 89, 1126, 876,
+	89, 553, 552, 795, 89, 944, 757, 945, 1274, 89,
+	89, 533, 631, 353, 632, 850, 1696, 345, 554, 862,
+	945, 863, 864, 852, 853, 1695, 353, 871, 1233, 1672,
+	929, 831, 1676, 880, 503, 1640, 888, 875, 794, 1080,
+	1516, 872, 534, 76, 961, 829, 830, 828, 1642, 912,
+	333, 333, 333, 333, 333, 553, 552, 885, 553, 552,
+	1070, 879, 1126, 881, 882, 333, 950, 1637, 493, 799,
+	800, 1673, 554, 1125, 333, 554, 979, 980, 981, 982,
+	957, 889, 946, 353, 892, 913, 1518, 353, 947, 353,
+	89, 901, 89, 890, 891, 1126, 893, 89, 909, 89,
+	910, 69, 89, 353, 327, 914, 915, 1622, 553, 552,
+	1675, 1674, 932, 1158, 1162, 553, 552, 506, 507, 508,
+	50, 545, 1624, 997, 1517, 554, 1623, 1048, 1049, 1050,
+	827, 821, 554, 1069, 580, 1068, 993, 994, 1620, 495,
+	1137, 953, 498, 949, 958, 347, 1159, 1529, 1161, 1160,
+	955, 954, 553, 552, 1457, 1456, 347, 347, 347, 347,
+	347, 347, 347, 347, 1448, 1007, 1327, 1012, 1166, 554,
+	347, 347, 1029, 825, 1030, 1188, 1186, 1031, 1447, 814,
+	816, 817, 1166, 1166, 822, 815, 848, 1136, 849, 1575,
+	805, 1485, 1638, 1639, 1641, 1643, 1644, 1452, 1377, 1180,
+	557, 1143, 1572, 347, 1316, 21, 1597, 1723, 1493, 1712,
+	534, 1040, 1424, 1705, 1041, 1592, 292, 291, 294, 295,
+	296, 297, 1315, 1047, 826, 293, 298, 1424, 1684, 1591,
+	1054, 1055, 1056, 1090, 1424, 1683, 1424, 1669, 1535, 353,
+	1053, 1314, 89, 1135, 854, 1597, 1668, 1111, 1119, 1113,
+	1665, 1664, 1657, 534, 868, 868, 1003, 951, 353, 851,
+	868, 255, 929, 952, 1424, 1654, 1493, 1602, 1534, 353,
+	774, 1062, 1424, 1593, 1493, 1527, 1493, 534, 1493, 1494,
+	353, 773, 1112, 1079, 1424, 1423, 1530, 1077, 758, 89,
+	1121, 1297, 534, 1410, 534, 1449, 1503, 868, 1142, 756,
+	1103, 1354, 1353, 1348, 1349, 1329, 512, 333, 1442, 1505,
+	1151, 1152, 1153, 959, 23, 960, 1348, 1347, 1156, 1154,
+	299, 300, 505, 1114, 1063, 534, 347, 1338, 956, 1157,
+	1167, 1168, 353, 1170, 1171, 1172, 1194, 1088, 23, 347,
+	1089, 1094, 1130, 1131, 1133, 654, 534, 860, 534, 1191,
+	696, 695, 680, 1598, 1173, 1597, 1175, 1176, 1177, 1178,
+	50, 54, 353, 1241, 1488, 89, 89, 860, 659, 662,
+	663, 664, 660, 89, 661, 665, 1185, 1504, 1099, 1100,
+	1095, 23, 353, 1187, 50, 1276, 1243, 1199, 1094, 1181,
+	1095, 1075, 681, 1072, 679, 911, 998, 679, 1406, 1063,
+	347, 653, 347, 1200, 1198, 1063, 654, 1441, 1267, 1506,
+	1507, 1508, 1509, 1510, 1511, 1512, 347, 1459, 1458, 257,
+	1357, 654, 353, 353, 1352, 654, 1120, 50, 1396, 916,
+	1063, 1094, 1277, 1074, 1280, 1071, 682, 797, 1244, 1245,
+	347, 1282, 50, 1716, 1682, 1250, 1659, 1595, 1239, 1299,
+	1264, 353, 1594, 353, 353, 929, 1586, 929, 1271, 1247,
+	1248, 822, 1585, 1547, 1528, 50, 1263, 1472, 968, 996,
+	1337, 888, 1265, 1266, 1286, 1268, 1269, 888, 1287, 1285,
+	1336, 1334, 1324, 1291, 991, 1304, 1148, 967, 1189, 1190,
+	1158, 1162, 1298, 1317, 1123, 1099, 1100, 1567, 984, 1303,
+	568, 567, 577, 578, 570, 571, 572, 573, 574, 575,
+	576, 569, 1322, 983, 579, 1328, 1320, 65, 1157, 755,
+	89, 353, 1460, 1159, 1276, 1161, 1160, 1197, 89, 1102,
+	1341, 771, 266, 353, 759, 531, 1501, 900, 898, 663,
+	664, 896, 353, 899, 1339, 1340, 897, 1342, 1343, 1344,
+	809, 1105, 1110, 1104, 89, 895, 802, 894, 261, 262,
+	353, 659, 662, 663, 664, 660, 1690, 661, 665, 353,
+	1660, 347, 89, 1243, 1364, 1368, 1237, 1379, 1036, 548,
+	1688, 1046, 1128, 1045, 1370, 536, 1503, 1005, 1174, 694,
+	513, 1326, 546, 1138, 1404, 1355, 537, 1473, 1373, 1505,
+	799, 800, 1376, 1363, 1465, 770, 1466, 1467, 1468, 1470,
+	1325, 1196, 1380, 999, 859, 861, 667, 548, 1464, 252,
+	258, 259, 353, 1469, 353, 353, 353, 89, 353, 1372,
+	877, 1387, 1360, 1311, 353, 1044, 1680, 333, 929, 1417,
+	1418, 1419, 1553, 1043, 1405, 347, 253, 1382, 54, 1552,
+	1476, 1095, 1310, 1309, 1216, 353, 1413, 1432, 550, 1584,
+	1420, 1583, 1561, 1437, 1139, 792, 1121, 1504, 1422, 56,
+	1439, 1009, 1010, 1011, 58, 347, 1436, 1545, 7, 1201,
+	903, 1365, 1206, 1546, 6, 1544, 5, 678, 353, 353,
+	51, 1445, 1194, 929, 1443, 347, 353, 1157, 1, 1506,
+	1507, 1508, 1509, 1510, 1511, 1512, 353, 1542, 1451, 1590,
+	1453, 1145, 1588, 67, 1649, 1596, 1461, 347, 1450, 1217,
+	580, 1462, 1330, 1359, 1219, 1212, 1213, 1195, 1220, 1215,
+	1214, 1210, 868, 1222, 1218, 1284, 1110, 1002, 868, 1192,
+	1017, 353, 353, 1603, 1221, 1617, 1477, 1500, 936, 926,
+	1211, 1280, 1207, 1203, 461, 353, 1208, 1205, 1204, 1489,
+	64, 74, 1573, 464, 347, 353, 347, 1307, 1487, 1515,
+	937, 935, 1209, 933, 1520, 1164, 1498, 1514, 1202, 1513,
+	965, 703, 701, 702, 699, 538, 542, 705, 1522, 353,
+	353, 89, 231, 1524, 353, 340, 1479, 1480, 1531, 1481,
+	1482, 1483, 560, 353, 567, 577, 578, 570, 571, 572,
+	573, 574, 575, 576, 569, 1536, 666, 579, 1548, 690,
+	551, 1224, 1223, 1013, 353, 1232, 1569, 788, 1532, 1033,
+	1533, 529, 233, 1280, 1356, 588, 604, 1562, 1042, 1568,
+	1563, 1115, 346, 1645, 1283, 615, 1369, 540, 1551, 1475,
+	1078, 303, 47, 614, 873, 1371, 278, 813, 290, 287,
+	289, 288, 804, 1060, 1087, 561, 1538, 1061, 268, 332,
+	650, 658, 656, 1374, 1065, 1066, 1067, 655, 353, 1101,
+	1097, 627, 347, 1076, 331, 1600, 1240, 1401, 1082, 1558,
+	808, 1083, 1084, 1085, 1086, 353, 25, 55, 353, 47,
+	263, 1608, 353, 19, 1601, 1613, 18, 256, 17, 1618,
+	20, 16, 15, 334, 629, 14, 353, 353, 1632, 1625,
+	1626, 1627, 1628, 1629, 29, 353, 353, 13, 353, 12,
+	1630, 1631, 11, 10, 9, 1415, 353, 1415, 1415, 1415,
+	1655, 1421, 1653, 1633, 888, 8, 4, 347, 254, 22,
+	2, 1647, 1648, 0, 0, 634, 635, 636, 637, 638,
+	639, 640, 641, 642, 643, 0, 0, 0, 1415, 0,
+	0, 0, 1666, 1667, 0, 0, 630, 1252, 0, 0,
+	0, 0, 1681, 0, 644, 628, 0, 0, 0, 0,
+	353, 633, 0, 1687, 353, 1686, 0, 0, 0, 0,
+	0, 347, 347, 1694, 1692, 0, 0, 0, 0, 1471,
+	1254, 89, 0, 353, 0, 1699, 1689, 0, 1702, 1474,
+	1701, 0, 0, 580, 89, 0, 1709, 0, 1700, 520,
+	0, 1711, 0, 0, 0, 1713, 0, 0, 0, 0,
+	0, 353, 0, 0, 0, 1717, 1150, 353, 0, 1720,
+	0, 1151, 1152, 1153, 1491, 1492, 0, 0, 0, 1156,
+	1154, 299, 300, 0, 645, 0, 1256, 0, 1307, 0,
+	1261, 0, 1255, 0, 1249, 0, 0, 1253, 1523, 521,
+	521, 521, 521, 1259, 521, 811, 812, 0, 0, 0,
+	0, 521, 0, 0, 0, 0, 1257, 1258, 0, 1708,
+	0, 0, 1307, 1537, 0, 0, 0, 1540, 47, 0,
+	0, 0, 0, 0, 1260, 1262, 1415, 0, 0, 1721,
+	0, 1296, 0, 589, 0, 0, 591, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1565, 604, 0,
+	0, 865, 866, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 601, 0, 605, 606, 607, 608, 609,
+	610, 611, 612, 613, 0, 616, 618, 618, 618, 618,
+	618, 618, 618, 618, 0, 646, 647, 648, 649, 0,
+	0, 0, 0, 0, 0, 0, 669, 0, 0, 0,
+	0, 1307, 0, 0, 969, 970, 972, 973, 974, 0,
+	975, 976, 0, 0, 0, 868, 0, 0, 1615, 0,
+	0, 1616, 0, 0, 0, 1619, 0, 985, 986, 987,
+	0, 988, 922, 989, 0, 0, 0, 0, 0, 1540,
+	1307, 1158, 1162, 0, 0, 0, 0, 0, 1307, 1307,
+	0, 1651, 0, 0, 0, 0, 0, 0, 0, 1658,
+	0, 0, 0, 0, 0, 0, 1381, 0, 523, 524,
+	525, 0, 528, 1383, 1159, 0, 1161, 1160, 0, 532,
+	0, 0, 0, 0, 0, 1392, 1393, 1394, 0, 0,
+	1397, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1407, 1408, 1409, 0, 1412, 0, 0,
+	0, 0, 0, 1307, 0, 0, 0, 1691, 568, 567,
+	577, 578, 570, 571, 572, 573, 574, 575, 576, 569,
+	0, 0, 579, 0, 0, 0, 1415, 1037, 1038, 0,
+	542, 568, 567, 577, 578, 570, 571, 572, 573, 574,
+	575, 576, 569, 0, 1446, 579, 0, 0, 0, 0,
+	0, 0, 0, 521, 347, 0, 0, 1058, 0, 0,
+	1540, 1059, 0, 0, 521, 521, 521, 521, 521, 521,
+	521, 521, 0, 0, 539, 0, 0, 0, 521, 521,
+	0, 568, 567, 577, 578, 570, 571, 572, 573, 574,
+	575, 576, 569, 1064, 0, 579, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1081, 87,
+	0, 0, 243, 1484, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1495,
+	1496, 1497, 0, 0, 267, 0, 87, 87, 0, 0,
+	0, 0, 0, 47, 0, 0, 0, 0, 0, 0,
+	1526, 0, 87, 0, 87, 0, 0, 605, 0, 1169,
+	87, 0, 0, 1023, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1022, 0, 0, 473,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1554, 1555, 1556, 1557, 0, 0, 477, 471, 0,
+	0, 0, 0, 1027, 0, 0, 334, 334, 334, 334,
+	334, 0, 1021, 0, 0, 0, 463, 0, 0, 0,
+	0, 669, 0, 908, 0, 466, 0, 0, 580, 0,
+	334, 767, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 778, 779, 780, 781, 782, 783, 784, 785,
+	0, 580, 0, 0, 0, 0, 786, 787, 0, 0,
+	0, 1018, 1015, 1016, 0, 1014, 0, 0, 0, 0,
+	1609, 0, 0, 0, 0, 1614, 0, 0, 0, 0,
+	0, 944, 485, 0, 0, 0, 939, 0, 938, 0,
+	940, 941, 0, 1025, 1028, 942, 945, 0, 87, 1634,
+	467, 580, 0, 0, 0, 0, 229, 0, 521, 0,
+	521, 0, 0, 1273, 479, 1656, 0, 0, 0, 465,
+	0, 0, 0, 0, 521, 0, 0, 0, 1288, 1289,
+	239, 0, 1290, 0, 0, 1292, 0, 478, 483, 0,
+	0, 0, 0, 0, 0, 0, 0, 1333, 1335, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1020, 0,
+	481, 482, 468, 486, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1052, 0, 0, 484, 480, 0, 0,
+	0, 224, 0, 0, 0, 0, 0, 226, 0, 1019,
+	474, 0, 0, 0, 232, 228, 0, 0, 0, 0,
+	0, 0, 87, 1707, 0, 0, 0, 487, 0, 87,
+	674, 87, 0, 0, 0, 0, 0, 0, 472, 0,
+	0, 476, 0, 470, 230, 0, 0, 234, 1024, 0,
+	0, 0, 0, 1724, 1725, 1091, 1092, 0, 0, 0,
+	1384, 1385, 0, 1386, 1026, 0, 0, 1388, 0, 1390,
+	0, 469, 0, 0, 0, 475, 0, 0, 0, 0,
+	0, 0, 0, 334, 0, 0, 0, 1378, 0, 0,
+	0, 0, 0, 473, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 225, 1004, 0, 1006, 0,
+	0, 477, 471, 0, 0, 1425, 1426, 0, 0, 0,
+	0, 0, 1032, 0, 0, 0, 0, 1403, 0, 0,
+	463, 0, 0, 0, 604, 0, 0, 0, 0, 466,
+	0, 0, 0, 227, 0, 235, 236, 237, 238, 242,
+	0, 0, 0, 0, 241, 240, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 47, 0, 0, 0, 0, 1438, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 87, 0, 0, 0,
+	0, 0, 0, 87, 0, 87, 485, 0, 87, 0,
+	0, 87, 0, 521, 0, 776, 0, 0, 0, 0,
+	0, 0, 0, 0, 467, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 87, 0, 479, 0,
+	0, 0, 0, 465, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 87, 0, 0, 0, 0,
+	0, 478, 483, 0, 776, 0, 0, 0, 0, 0,
+	0, 1281, 0, 47, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 481, 482, 468, 486, 1293, 1294,
+	1295, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	484, 480, 0, 0, 0, 0, 267, 0, 0, 0,
+	0, 267, 267, 0, 474, 869, 869, 267, 0, 0,
+	0, 869, 0, 0, 1323, 0, 0, 0, 0, 0,
+	0, 487, 0, 0, 0, 0, 0, 0, 0, 0,
+	1332, 0, 472, 0, 0, 476, 0, 470, 0, 0,
+	0, 267, 267, 267, 267, 0, 87, 0, 869, 87,
+	87, 87, 87, 87, 0, 0, 0, 0, 0, 0,
+	0, 902, 0, 0, 87, 469, 0, 0, 674, 475,
+	0, 0, 0, 87, 87, 0, 0, 0, 1587, 0,
+	0, 1231, 0, 0, 0, 0, 0, 0, 23, 24,
+	48, 26, 27, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1607, 604, 42, 0, 0,
+	0, 28, 0, 334, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	37, 0, 0, 0, 50, 0, 0, 0, 0, 0,
+	0, 0, 1400, 0, 0, 0, 0, 0, 0, 0,
+	0, 1652, 0, 0, 87, 0, 87, 0, 0, 0,
+	0, 87, 0, 87, 0, 0, 87, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 776, 0, 0, 30, 31, 33, 32, 35, 0,
+	0, 0, 0, 267, 0, 0, 0, 0, 0, 0,
+	0, 0, 727, 0, 0, 0, 0, 0, 36, 43,
+	44, 0, 0, 45, 46, 34, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1703, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 267, 0, 0, 0, 0, 0, 38, 39, 0,
+	40, 41, 0, 0, 0, 0, 0, 267, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1281, 0,
+	0, 1490, 0, 0, 0, 0, 0, 0, 0, 712,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 87, 0, 0, 1525,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 728, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1549, 0, 0, 0, 0,
+	0, 0, 0, 1144, 0, 0, 0, 0, 0, 0,
+	1281, 49, 47, 634, 635, 636, 637, 638, 639, 640,
+	641, 642, 643, 0, 744, 745, 0, 746, 747, 748,
+	750, 749, 729, 730, 731, 735, 733, 732, 734, 706,
+	708, 0, 644, 707, 713, 709, 710, 711, 725, 714,
+	715, 716, 717, 718, 719, 720, 721, 722, 723, 724,
+	726, 736, 737, 738, 739, 740, 741, 742, 743, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1235,
+	1236, 0, 0, 0, 0, 0, 0, 87, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 267, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 267, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 776, 0,
+	0, 0, 645, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 869, 0, 0, 0, 0, 1663, 869,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 87, 0, 1718, 0, 0, 0,
+	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 449, 439, 87, 408, 451, 381,
 	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
 	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
 	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
 	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
 	453, 0, 0, 0, 352, 0, 930, 931, 0, 0,
-	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
-	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 674, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 1122,
 	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
 	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
 	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
@@ -1167,7 +1139,7 @@ var yyAct = [...]int{
 	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
 	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
 	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	97, 189, 139, 137, 129, 87, 117, 121, 157, 136,
 	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
 	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
 	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
@@ -1176,292 +1148,354 @@ var yyAct = [...]int{
 	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
 	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
 	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
-	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
-	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
-	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
-	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
-	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
-	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
-	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
-	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
-	0, 0, 0, 0, 1242, 0, 385, 0, 422, 0,
-	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
-	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
-	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
-	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
-	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	0, 104, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 869, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 449, 439, 0,
+	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
+	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
+	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
+	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
+	452, 395, 427, 453, 0, 0, 0, 352, 0, 930,
+	931, 0, 0, 0, 0, 0, 105, 0, 426, 448,
+	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
+	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
+	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
+	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
+	409, 0, 0, 0, 371, 1698, 386, 434, 0, 354,
+	438, 444, 406, 203, 447, 403, 402, 161, 87, 108,
+	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
+	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
+	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
+	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
+	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
+	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
+	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
+	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
+	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
+	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
+	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
+	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
+	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
+	404, 0, 0, 0, 0, 0, 0, 1242, 0, 385,
+	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
+	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
+	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
+	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
+	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
+	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
+	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
+	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
+	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
+	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
+	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
+	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
+	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
+	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
+	50, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
+	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
+	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
+	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
+	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
+	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
+	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
+	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
+	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
+	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
+	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
+	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
+	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
+	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
+	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
+	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
+	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
+	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
+	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
+	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
+	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
+	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
+	0, 0, 0, 819, 0, 385, 0, 422, 0, 0,
+	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
+	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
+	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
+	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
+	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
+	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
+	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
+	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
+	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
+	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
+	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
+	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
+	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
+	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
+	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
+	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
+	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
+	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
+	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
+	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
+	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
+	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
+	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 428,
+	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
+	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
+	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
+	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
+	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
+	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
+	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
+	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
+	452, 395, 427, 453, 0, 0, 0, 272, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
+	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
+	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
+	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
+	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
+	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
+	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
+	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
+	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
+	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
+	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
+	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
+	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
+	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
+	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
+	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
+	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
+	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
+	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
+	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
+	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
+	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
+	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
+	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
+	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
+	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
+	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
+	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
+	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
+	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
+	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
+	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
+	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
+	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
+	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
+	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
+	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
+	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
+	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
+	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
+	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
+	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
+	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
+	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
+	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
+	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
+	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
+	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
+	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
+	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
+	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
+	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
+	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
+	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
+	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
+	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
+	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
+	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
+	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
+	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
+	437, 93, 183, 684, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 350, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
+	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
+	0, 0, 0, 351, 349, 124, 173, 128, 135, 164,
+	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
+	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
+	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
+	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
+	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
+	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
+	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
+	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
+	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
+	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
+	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
+	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
+	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
+	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
+	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
+	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
+	183, 341, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
+	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
+	0, 351, 349, 344, 343, 128, 135, 164, 212, 428,
+	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
+	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
+	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
+	0, 367, 368, 170, 405, 154, 104, 92, 0, 0,
+	274, 0, 0, 0, 116, 271, 0, 0, 130, 313,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
+	305, 0, 0, 0, 0, 0, 0, 920, 0, 50,
+	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
+	0, 105, 293, 298, 299, 300, 921, 0, 0, 269,
+	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 282, 283, 0, 0, 0, 0, 325, 0,
+	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
 	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
-	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
 	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
 	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
 	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
 	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
 	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
-	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
 	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
-	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
-	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
-	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
-	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
-	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
-	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
-	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
-	431, 372, 423, 452, 395, 427, 453, 50, 0, 0,
-	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
-	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
-	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
-	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
-	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
-	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
-	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
-	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
-	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
-	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
-	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
-	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
-	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
-	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
-	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
-	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
-	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
-	423, 452, 395, 427, 453, 0, 0, 0, 272, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
-	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
-	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
-	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
-	819, 0, 385, 0, 422, 0, 0, 0, 369, 364,
-	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
-	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
-	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
-	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
-	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
-	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
-	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
-	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
-	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
-	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
-	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
-	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
-	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
-	395, 427, 453, 0, 0, 0, 352, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
-	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
-	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
-	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
-	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
-	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
-	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
-	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
-	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
-	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
-	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
-	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
-	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
-	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
-	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
-	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
-	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
-	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
-	453, 0, 0, 0, 272, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
-	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
-	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
-	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
-	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
-	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
-	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
-	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
-	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	362, 355, 387, 437, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
-	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
-	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
-	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
-	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
-	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
-	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
-	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
-	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
-	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
-	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
-	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
-	0, 0, 0, 0, 0, 0, 385, 0, 422, 0,
-	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
-	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
-	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
-	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
-	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
-	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 350, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
-	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
-	209, 0, 0, 0, 351, 349, 124, 173, 128, 135,
-	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
-	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
-	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
-	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
-	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
-	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
-	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
-	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
-	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
-	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
-	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
-	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
-	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
-	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
-	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
-	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
-	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
-	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
-	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
-	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
-	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
-	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
-	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
-	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
-	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
-	423, 452, 395, 427, 453, 0, 0, 0, 352, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
-	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
-	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
-	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
-	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
-	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
-	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
-	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
-	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
-	684, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 350, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
-	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
-	351, 349, 124, 173, 128, 135, 164, 212, 428, 169,
-	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
-	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
-	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
-	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
-	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
-	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
-	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
-	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
-	395, 427, 453, 0, 0, 0, 352, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
-	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
-	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
-	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
-	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
-	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
-	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
-	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
-	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 362, 355, 387, 437, 93, 183, 341, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 350, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
-	445, 206, 207, 208, 209, 0, 0, 0, 351, 349,
-	344, 343, 128, 135, 164, 212, 428, 169, 107, 195,
-	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
-	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
-	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
-	170, 405, 154, 104, 92, 0, 0, 274, 0, 0,
+	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
+	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
+	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 856, 170, 274, 322, 104,
 	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
 	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
-	0, 0, 0, 0, 920, 0, 50, 0, 0, 272,
+	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
 	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
-	298, 299, 300, 921, 0, 0, 269, 285, 0, 312,
+	298, 299, 300, 0, 0, 0, 269, 285, 0, 312,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
-	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
+	283, 265, 0, 0, 0, 325, 0, 284, 0, 0,
 	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
 	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
@@ -1482,14 +1516,14 @@ var yyAct = [...]int{
 	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
 	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
 	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
-	0, 92, 856, 170, 274, 322, 104, 0, 116, 271,
+	0, 92, 0, 170, 274, 322, 104, 0, 116, 271,
 	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
-	0, 0, 0, 50, 0, 0, 272, 292, 291, 294,
+	0, 0, 0, 50, 0, 534, 272, 292, 291, 294,
 	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
 	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 282, 283, 265, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
 	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
@@ -1514,11 +1548,11 @@ var yyAct = [...]int{
 	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
 	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 534, 272, 292, 291, 294, 295, 296, 297,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
 	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
 	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
+	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
 	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
 	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
@@ -1538,7 +1572,7 @@ var yyAct = [...]int{
 	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
 	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
 	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
+	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
 	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
 	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
@@ -1547,7 +1581,7 @@ var yyAct = [...]int{
 	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
 	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	282, 283, 265, 0, 0, 0, 325, 0, 284, 0,
+	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
 	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
 	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
@@ -1566,7 +1600,7 @@ var yyAct = [...]int{
 	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
 	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
 	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
-	0, 125, 310, 91, 99, 132, 210, 211, 23, 163,
+	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
 	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
 	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
 	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
@@ -1596,63 +1630,6 @@ var yyAct = [...]int{
 	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
 	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
-	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
-	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
-	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
-	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
-	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
-	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 170, 116,
-	322, 104, 0, 130, 313, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
-	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
-	300, 0, 0, 0, 0, 285, 0, 312, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
-	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
-	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 1721, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
-	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
 	0, 0, 0, 154, 0, 92, 0, 0, 0, 0,
 	0, 170, 116, 322, 104, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
@@ -1665,7 +1642,7 @@ var yyAct = [...]int{
 	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
 	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 1722,
 	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
 	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
 	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
@@ -1683,16 +1660,16 @@ var yyAct = [...]int{
 	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
 	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
 	0, 0, 0, 0, 170, 116, 322, 104, 0, 130,
-	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	0, 285, 0, 312, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 568,
-	567, 577, 578, 570, 571, 572, 573, 574, 575, 576,
-	569, 0, 0, 579, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
 	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
 	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
 	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
@@ -1706,19 +1683,19 @@ var yyAct = [...]int{
 	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
 	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
 	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
 	211, 0, 163, 118, 197, 0, 0, 0, 0, 154,
-	0, 92, 0, 673, 0, 0, 0, 170, 116, 580,
+	0, 92, 0, 0, 0, 0, 0, 170, 116, 322,
 	104, 0, 130, 0, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 88, 0, 675, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
 	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 568, 567, 577, 578, 570, 571, 572, 573,
+	574, 575, 576, 569, 0, 0, 579, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
 	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
@@ -1737,560 +1714,584 @@ var yyAct = [...]int{
 	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
 	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 23, 163, 118, 197, 0, 0,
-	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
-	170, 0, 0, 104, 0, 116, 0, 0, 0, 130,
-	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	50, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 154, 0, 92, 0, 556, 0, 0, 0,
+	170, 116, 580, 104, 0, 130, 0, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
+	0, 558, 0, 0, 0, 0, 0, 0, 105, 0,
+	0, 0, 0, 0, 553, 552, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 554, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
-	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
-	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
-	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
-	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
-	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
-	211, 23, 163, 118, 197, 0, 0, 0, 0, 0,
-	0, 0, 0, 154, 0, 92, 0, 170, 0, 0,
-	104, 0, 116, 0, 0, 0, 130, 0, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 673, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 675, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 0, 806, 0, 0, 807, 0, 0, 105,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 693, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 23, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 170, 0, 0, 104, 0, 116, 0,
+	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 692, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 50, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 673, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 23, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
+	170, 0, 0, 104, 0, 116, 0, 0, 0, 130,
+	0, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 675, 0, 0, 0, 0, 0, 0, 105,
+	50, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	671, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 806, 0, 0, 807,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 693, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	1416, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 692, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	673, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 675, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 1696, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 671, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	1308, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 1416, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 675, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 1697, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 1308, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 558, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 88, 0, 675, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	766, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 651, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 558, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 0, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 336, 0, 0, 0, 0, 0, 0, 154,
-	0, 92, 0, 0, 170, 0, 0, 104, 116, 0,
-	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 766, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 651, 116, 0, 170, 0, 130,
+	104, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
-	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
-	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 0, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 125, 0, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 336, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 0, 0, 170, 0, 0,
+	104, 116, 0, 0, 0, 130, 0, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	85, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
-	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
-	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
-	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
-	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 85, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
-	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
-	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 272, 0, 0, 0,
-	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
-	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
-	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
-	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
-	160, 167, 0, 109, 727, 216, 217, 218, 219, 220,
-	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
-	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
-	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
-	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
-	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
-	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
-	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
-	0, 712, 0, 0, 177, 196, 214, 215, 0, 0,
-	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
-	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
-	175, 0, 0, 0, 728, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	170, 0, 0, 104, 0, 634, 635, 636, 637, 638,
-	639, 640, 641, 642, 643, 0, 744, 745, 0, 746,
-	747, 748, 750, 749, 729, 730, 731, 735, 733, 732,
-	734, 706, 708, 0, 644, 707, 713, 709, 710, 711,
-	725, 714, 715, 716, 717, 718, 719, 720, 721, 722,
-	723, 724, 726, 736, 737, 738, 739, 740, 741, 742,
-	743, 473, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 477,
-	471, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 463, 0,
-	0, 0, 0, 0, 0, 0, 0, 466, 0, 0,
-	0, 0, 0, 0, 645, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	0, 116, 0, 170, 0, 130, 104, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 272,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 944, 485, 0, 0, 0, 939, 0,
-	938, 0, 940, 941, 0, 0, 0, 942, 945, 0,
-	0, 0, 467, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 479, 0, 0, 0,
-	0, 465, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 478,
-	483, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 481, 482, 468, 486, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 484, 480,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 474, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 487,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	472, 0, 0, 476, 0, 470, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 469, 0, 0, 0, 475,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 170, 0, 0, 104,
 }
 
 var yyPact = [...]int{
-	2218, -1000, -208, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2732, -1000, -201, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1303, 1334, -1000, -1000, -1000, -1000, -1000, -1000, 1135,
+	500, 268, 378, 123, 13744, 377, 2245, 14304, -1000, 103,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1045, -1000, -1000,
+	-1000, -1000, -1000, 1272, 1300, 1083, 1270, 1190, -1000, 7538,
+	267, 12058, 13464, 6384, -1000, 2425, -185, 271, 14024, 264,
+	264, 14024, 14024, 264, -1000, -47, 312, 14304, -1000, 14304,
+	263, 937, 263, 263, 263, 14304, -1000, 429, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1247, 1284, -1000, -1000, -1000, -1000, -1000, -1000, 1087,
-	485, 285, 343, 93, 13411, 341, 2231, 13971, -1000, 141,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1009, -1000, -1000,
-	-1000, -1000, -1000, 1235, 1245, 1059, 1214, 1137, -1000, 7485,
-	282, 11725, 13131, 6331, -1000, 1991, -170, 314, 13691, 279,
-	279, 13691, 13691, 279, -1000, -77, 340, 13971, -1000, 13971,
-	248, 906, 248, 248, 248, 13971, -1000, 391, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2303,21 +2304,21 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 14304, 921, 1231, 229, 4228, 4228, 4228,
+	4228, 178, 4228, 2, 1155, -1000, -1000, -1000, -1000, 4228,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 13971, 897, 1170, 467, 4175, 4175, 4175,
-	4175, 185, 4175, -2, 1102, -1000, -1000, -1000, -1000, 4175,
+	826, 1236, 8112, 8112, 1303, -1000, 1045, -1000, -1000, -1000,
+	1228, -1000, -1000, 502, 1317, -1000, 9244, 428, -1000, 8112,
+	85, 1060, -1000, -1000, 1060, -1000, -1000, 419, -1000, -1000,
+	8678, 8678, 8678, 8678, 8678, 8678, 8678, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	769, 1183, 8059, 8059, 1247, -1000, 1009, -1000, -1000, -1000,
-	1158, -1000, -1000, 548, 1259, -1000, 2921, 388, -1000, 8059,
-	62, 1012, -1000, -1000, 1012, -1000, -1000, 355, -1000, -1000,
-	8625, 8625, 8625, 8625, 8625, 8625, 8625, -1000, -1000, -1000,
+	-1000, 1060, -1000, 7825, 1060, 1060, 1060, 1060, 1060, 1060,
+	1060, 1060, 8112, 1060, 1060, 1060, 1060, 1060, 1060, 1060,
+	1060, 1060, 1445, 1060, 1060, 1060, 1060, 13178, 1042, 1191,
+	-1000, -1000, -1000, 1264, 10098, 10938, 14304, 1011, -1000, 1053,
+	6076, -9, -1000, -1000, -1000, 550, 10658, -1000, -1000, -1000,
+	1230, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1012, -1000, 7772, 1012, 1012, 1012, 1012, 1012, 1012,
-	1012, 1012, 8059, 1012, 1012, 1012, 1012, 1012, 1012, 1012,
-	1012, 1012, 1704, 1012, 1012, 1012, 1012, 12845, 956, 1174,
-	-1000, -1000, -1000, 1209, 9765, 10605, 13971, 938, -1000, 998,
-	6023, -54, -1000, -1000, -1000, 481, 10325, -1000, -1000, -1000,
-	1167, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2327,159 +2328,158 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 967, -1000, 2833, 2833, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 903, -1000, 14385, 14385, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 308, -1000,
+	-1000, 14304, 1138, 914, 604, 903, 1154, 261, 14304, -1000,
+	12898, 4228, 279, 14304, 1252, 1151, 14304, 896, 885, -1000,
+	5768, -1000, 4228, 4228, 4228, 4228, 4228, 4228, 4228, 4228,
+	-1000, -1000, -1000, -1000, -1000, -1000, 4228, 4228, -1000, 7,
+	-1000, 14304, -1000, -1000, -1000, -1000, 1326, 460, 655, 427,
+	1054, -1000, 715, 1272, 826, 1190, 10378, 1179, -1000, -1000,
+	14304, -1000, 8112, 8112, 783, -1000, 12618, -1000, -1000, 4536,
+	465, 8678, 738, 627, 8678, 8678, 8678, 8678, 8678, 8678,
+	8678, 8678, 8678, 8678, 8678, 8678, 8678, 8678, 8678, 801,
+	1445, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 874,
+	-1000, 1045, 830, 830, 19, 19, 19, 19, 19, 19,
+	8961, 6964, 826, 964, 484, 7825, 7538, 7538, 8112, 8112,
+	14584, 14584, 7538, 1266, 497, 484, 14584, -1000, 826, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 57, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 336, -1000,
-	-1000, 13971, 1089, 874, 512, 868, 1100, 270, 13971, -1000,
-	12565, 4175, 293, 13971, 1202, 1099, 13971, 853, 836, -1000,
-	5715, -1000, 4175, 4175, 4175, 4175, 4175, 4175, 4175, 4175,
-	-1000, -1000, -1000, -1000, -1000, -1000, 4175, 4175, -1000, -17,
-	-1000, 13971, -1000, -1000, -1000, -1000, 1277, 400, 766, 387,
-	1001, -1000, 554, 1235, 769, 1137, 10045, 1124, -1000, -1000,
-	13971, -1000, 8059, 8059, 622, -1000, 12285, -1000, -1000, 4483,
-	411, 8625, 599, 518, 8625, 8625, 8625, 8625, 8625, 8625,
-	8625, 8625, 8625, 8625, 8625, 8625, 8625, 8625, 8625, 713,
-	1704, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 826,
-	-1000, 1009, 921, 921, 21, 21, 21, 21, 21, 21,
-	8908, 6911, 769, 901, 463, 7772, 7485, 7485, 8059, 8059,
-	14251, 14251, 7485, 1211, 504, 463, 14251, -1000, 769, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 87, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 7538, 7538, 7538, 7538,
+	188, 14304, -1000, 14584, 12058, 12058, 12058, 12058, 12058, -1000,
+	1187, 1185, -1000, 1171, 1168, 1167, 14304, -1000, 962, 10098,
+	386, 1060, -1000, 12338, -1000, -1000, 188, 1014, 12058, 14304,
+	-1000, -1000, 5460, 1053, -9, 1046, -1000, -7, -19, 6677,
+	434, -1000, -1000, -1000, -1000, 3612, 2131, 686, -123, 18,
+	-1000, -1000, -1000, -1000, 1086, -1000, 1086, 214, 1086, 1086,
+	1086, -1000, 1086, 1086, 54, 54, 54, 54, 54, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 1131, 1116, -1000, 1086,
+	1086, 1086, -1000, 1086, -1000, 1086, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 1102, 328, 1102, 1087, 1087, -1000,
+	-1000, 686, 14024, 1261, -103, 871, 4228, 1234, 4228, 14304,
+	1333, 14304, -1000, -1000, -1000, 2118, 14304, -1000, 14304, -1000,
+	-1000, 14304, 4228, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 537, -1000,
+	-1000, -1000, -1000, 1212, 8112, 8112, 5152, 8112, -1000, -1000,
+	-1000, 1236, -1000, 1266, 1294, -1000, 1221, 1219, 7538, -1000,
+	-1000, 465, 485, -1000, -1000, 731, -1000, -1000, -1000, -1000,
+	425, 1060, -1000, 1910, -1000, -1000, -1000, -1000, 738, 8678,
+	8678, 8678, 1887, 1910, 1960, 270, 1382, 19, 31, 31,
+	16, 16, 16, 16, 16, 309, 309, -1000, -1000, -1000,
+	-1000, 826, -1000, -1000, -1000, 826, 7538, 1047, -1000, -1000,
+	8112, -1000, 826, 941, 941, 752, 708, 1052, -1000, 422,
+	1050, 941, 7538, 631, -1000, 8112, 826, -1000, -1000, 941,
+	826, 941, 941, 978, 1060, -1000, 1048, -1000, 549, 1191,
+	1115, 1149, 998, -1000, -1000, -1000, -1000, 1183, -1000, 1181,
+	-1000, -1000, -1000, -1000, -1000, 307, 305, 282, 14024, -1000,
+	1309, 12058, 1038, -1000, -1000, 1046, -9, -16, -1000, -1000,
+	-1000, -1000, 484, -1000, -1000, 863, 1043, 3279, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 1112, 693, 14024, 246,
+	239, 555, 542, 858, -1000, -1000, -1000, 791, -1000, 14024,
+	1325, -1000, -1000, 241, -1000, 238, 596, 814, 14304, 148,
+	1104, 1664, -1000, -209, -1000, 15, -1000, -1000, 795, 54,
+	54, 1086, 54, 54, 54, -1000, -1000, 434, 1229, 434,
+	434, 434, 434, 812, 812, -86, -86, -1000, -1000, -1000,
+	-1000, 788, 1102, -1000, -1000, -1000, 787, -1000, 1108, 1045,
+	-1000, 4844, -1000, -1000, -1000, -1000, -1000, 1259, 1147, -1000,
+	-1000, -1000, 111, -1000, 1297, 1269, 486, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 169, 381,
+	-1000, 4228, -1000, 610, 14304, 14304, 1209, 484, 484, 417,
+	-1000, -1000, 14304, -1000, -1000, -1000, -1000, 1022, -1000, -1000,
+	-1000, 3920, 7538, -1000, 1887, 1910, 49, -1000, 8678, 8678,
+	-1000, -1000, 941, 7538, 484, -1000, -1000, -1000, 1541, 801,
+	1541, 8678, 8678, 5152, 8678, 8678, -63, 1016, 487, -1000,
+	8112, 601, -1000, -1000, -1000, -1000, -1000, 1144, 14584, 1060,
+	-1000, 9811, 14024, 1303, 14584, 8112, 8112, -1000, -1000, 8112,
+	1101, -1000, 8112, -1000, -1000, -1000, 1060, 1060, 1060, 908,
+	-1000, 1303, 1038, -1000, -1000, -1000, -12, -29, -1000, -1000,
+	3612, -1000, 3612, 11778, -1000, 1313, 1284, 207, 259, -1000,
+	856, 837, -1000, 819, -1000, 0, -1000, -183, 86, -1,
+	-1000, -1000, 1060, -1000, 1100, 1258, -1000, 1233, 778, -1000,
+	923, -194, -1000, -1000, -1000, -1000, -1000, -1000, 1060, 1099,
+	1098, -1000, 1088, -1000, -1000, -1000, 943, 434, 434, 54,
+	434, 434, 434, -1000, 494, -1000, -1000, -1000, -1000, 933,
+	-1000, 920, -1000, 74, 71, -1000, 1041, -1000, 918, 14304,
+	14024, -1000, 1037, -1000, 544, 1283, 142, 14304, 1333, -1000,
+	223, -1000, 14024, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 14024, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 14304, -1000, -1000, -1000, -1000, -1000, 14024,
+	234, -1000, -1000, 811, 8112, -1000, -1000, -1000, 4844, -1000,
+	1309, 12058, -1000, -1000, 826, -1000, 8678, 1910, 1910, -1000,
+	-1000, 826, 1086, 1086, -1000, 1086, 1087, -1000, -1000, 1086,
+	89, 1086, 88, 826, 826, 224, 1079, -1000, 195, 493,
+	1060, -58, -1000, 484, 8112, -1000, 1237, 1005, 1015, -1000,
+	-1000, 7251, 826, 910, 413, 908, 1272, -1000, 484, 484,
+	484, 11218, 484, 11218, 11218, 11218, 9524, 14024, 1272, -1000,
+	-1000, -1000, -1000, 3279, -1000, 901, -1000, 1086, 1086, 368,
+	368, -184, 211, 209, -1000, -1000, -1000, -1000, -185, -1000,
+	-1000, 596, -1000, 8112, 11218, -164, -1000, 1024, 924, 546,
+	-1000, 256, 826, -1000, 794, -1000, 780, 911, -1000, -1000,
+	-1000, 434, -1000, -1000, -1000, -1000, -1000, 54, 810, 54,
+	13, 12, 767, -1000, 766, 1036, 1142, 4844, 3612, 277,
+	1268, -1000, -1000, 1274, 1257, 14024, -1000, -1000, -1000, 1085,
+	-1000, -1000, -1000, -1000, 1241, 14024, -1000, -1000, 484, 1307,
+	1023, -1000, 1910, -1000, -1000, 213, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 8678, 8678, -1000, 8678, 8678,
+	8678, 826, 804, 484, 204, -1000, 1060, -1000, -1000, 1002,
+	14024, 14024, -1000, -1000, 895, -1000, -1000, 893, 893, 893,
+	386, -1000, -1000, 915, 11778, 1246, -1000, 660, -1000, -1000,
+	728, 140, 581, -1000, 14024, -185, -1000, 1060, 658, 891,
+	1082, 759, -1000, 902, -1000, -123, -1000, -1000, -1000, -1000,
+	-1000, 434, -1000, 434, -1000, -1000, 884, 854, 11778, 14024,
+	14304, -1000, -1000, 14024, -1000, -1000, -1000, -1000, -1000, 108,
+	226, 1081, 11218, 1060, 258, 1305, 1296, -1000, -1000, 118,
+	118, 118, 118, 102, -1000, -1000, 1323, -1000, 1060, -1000,
+	1045, 401, -1000, 14024, -1000, -1000, -1000, -1000, -1000, 1117,
+	1205, 137, -1000, 817, 543, 802, 529, 522, 519, 516,
+	498, 495, 489, -1000, -1000, -1000, 1322, -1000, -1000, -1000,
+	-1000, 1319, 1080, -1000, 1074, 8112, 146, -1000, -1000, 845,
+	831, -1000, -1000, -1000, -1000, -1000, 889, 1070, 1065, 972,
+	-1000, 105, 226, -1000, -1000, -1000, -1000, 11778, 883, 164,
+	199, -1000, 8112, 8112, -1000, -1000, -1000, -1000, 826, 175,
+	-134, 14584, 1015, 826, 14024, -1000, -1000, 14024, -1000, -131,
+	1205, 14024, -1000, 750, -1000, -1000, 727, 734, 727, 727,
+	727, 727, 727, 368, 368, 14024, 11778, 658, -1000, -60,
+	561, -1000, -1000, -191, 11778, 11778, -83, 14024, 8112, 226,
+	-1000, 881, 1138, 869, -1000, 14024, 1064, 484, 984, -1000,
+	1203, -69, -156, 958, -1000, -1000, 1060, 867, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 7485, 7485, 7485, 7485,
-	199, 13971, -1000, 14251, 11725, 11725, 11725, 11725, 11725, -1000,
-	1134, 1132, -1000, 1115, 1113, 1121, 13971, -1000, 892, 9765,
-	364, 1012, -1000, 12005, -1000, -1000, 199, 948, 11725, 13971,
-	-1000, -1000, 5407, 998, -54, 995, -1000, -35, -27, 6624,
-	420, -1000, -1000, -1000, -1000, 3559, 14603, 1776, -133, 36,
-	-1000, -1000, -1000, -1000, 1042, -1000, 1042, 244, 1042, 1042,
-	1042, -1000, 1042, 1042, 82, 82, 82, 82, 82, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 1084, 1083, -1000, 1042,
-	1042, 1042, -1000, 1042, -1000, 1042, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 1066, 247, 1066, 1043, 1043, -1000,
-	-1000, 1776, 13691, 1207, -100, 799, 4175, 1186, 4175, 13971,
-	1270, 13971, -1000, -1000, -1000, 1142, 13971, -1000, 13971, -1000,
-	-1000, 13971, 4175, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 497, -1000,
-	-1000, -1000, -1000, 1098, 8059, 8059, 5099, 8059, -1000, -1000,
-	-1000, 1183, -1000, 1211, 1226, -1000, 1155, 1154, 7485, -1000,
-	-1000, 411, 488, -1000, -1000, 657, -1000, -1000, -1000, -1000,
-	386, 1012, -1000, 979, -1000, -1000, -1000, -1000, 599, 8625,
-	8625, 8625, 283, 979, 1297, 19, 444, 21, 121, 121,
-	23, 23, 23, 23, 23, 381, 381, -1000, -1000, -1000,
-	-1000, 769, -1000, -1000, -1000, 769, 7485, 996, -1000, -1000,
-	8059, -1000, 769, 887, 887, 577, 628, 987, -1000, 385,
-	986, 887, 7485, 515, -1000, 8059, 769, -1000, -1000, 887,
-	769, 887, 887, 869, 1012, -1000, 981, -1000, 480, 1174,
-	1082, 1097, 1580, -1000, -1000, -1000, -1000, 1131, -1000, 1129,
-	-1000, -1000, -1000, -1000, -1000, 334, 329, 319, 13691, -1000,
-	1260, 11725, 980, -1000, -1000, 995, -54, -5, -1000, -1000,
-	-1000, -1000, 463, -1000, -1000, 786, 991, 3251, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 1079, 573, 13691, 235,
-	231, 389, 354, 784, -1000, -1000, -1000, 607, -1000, 13691,
-	1276, -1000, -1000, 232, -1000, 228, 511, 749, 13971, 166,
-	1076, 1924, -1000, -211, -1000, 18, -1000, -1000, 717, 82,
-	82, 1042, 82, 82, 82, -1000, -1000, 420, 1164, 420,
-	420, 420, 420, 733, 733, -104, -104, -1000, -1000, -1000,
-	-1000, 703, 1066, -1000, -1000, -1000, 693, -1000, 1063, 1009,
-	-1000, 4791, -1000, -1000, -1000, -1000, -1000, 1206, 1096, -1000,
-	-1000, -1000, 153, -1000, 785, 1984, 333, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 198, 346,
-	-1000, 4175, -1000, 551, 13971, 13971, 1147, 463, 463, 384,
-	-1000, -1000, 13971, -1000, -1000, -1000, -1000, 984, -1000, -1000,
-	-1000, 3867, 7485, -1000, 283, 979, 700, -1000, 8625, 8625,
-	-1000, -1000, 887, 7485, 463, -1000, -1000, -1000, 681, 713,
-	681, 8625, 8625, 5099, 8625, 8625, -91, 960, 483, -1000,
-	8059, 737, -1000, -1000, -1000, -1000, -1000, 1094, 14251, 1012,
-	-1000, 9478, 13691, 1247, 14251, 8059, 8059, -1000, -1000, 8059,
-	1057, -1000, 8059, -1000, -1000, -1000, 1012, 1012, 1012, 864,
-	-1000, 1247, 980, -1000, -1000, -1000, -48, -62, -1000, -1000,
-	3559, -1000, 3559, 11445, -1000, 1266, 1222, 237, 277, -1000,
-	783, 780, -1000, 762, -1000, 15, -1000, -178, 95, -13,
-	-1000, -1000, 1012, -1000, 1049, 1205, -1000, 1172, 692, -1000,
-	1901, -201, -1000, -1000, -1000, -1000, -1000, -1000, 1012, 1047,
-	1046, -1000, 1044, -1000, -1000, -1000, 917, 420, 420, 82,
-	420, 420, 420, -1000, 448, -1000, -1000, -1000, -1000, 884,
-	-1000, 880, -1000, 99, 98, -1000, 985, -1000, 878, 13971,
-	13691, -1000, 978, -1000, 473, 1221, 167, 13971, 1270, -1000,
-	230, -1000, 13691, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 13691, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 13971, -1000, -1000, -1000, -1000, -1000, 13691,
-	234, -1000, -1000, 726, 8059, -1000, -1000, -1000, 4791, -1000,
-	1260, 11725, -1000, -1000, 769, -1000, 8625, 979, 979, -1000,
-	-1000, 769, 1042, 1042, -1000, 1042, 1043, -1000, -1000, 1042,
-	115, 1042, 114, 769, 769, 212, 925, -1000, 150, 177,
-	1012, -86, -1000, 463, 8059, -1000, 1178, 919, 950, -1000,
-	-1000, 7198, 769, 873, 382, 864, 1235, -1000, 463, 463,
-	463, 10885, 463, 10885, 10885, 10885, 9191, 13691, 1235, -1000,
-	-1000, -1000, -1000, 3251, -1000, 850, -1000, 1042, 1042, 316,
-	316, -180, 227, 217, -1000, -1000, -1000, -1000, -170, -1000,
-	-1000, 511, -1000, 8059, 10885, -159, -1000, 975, 914, 1700,
-	-1000, 2566, 769, -1000, 758, -1000, 633, 909, -1000, -1000,
-	-1000, 420, -1000, -1000, -1000, -1000, -1000, 82, 723, 82,
-	10, 8, 690, -1000, 684, 990, 1093, 4791, 3559, 292,
-	1257, -1000, -1000, 1219, 1204, 13691, -1000, -1000, -1000, 1039,
-	-1000, -1000, -1000, -1000, 1175, 13691, -1000, -1000, 463, 1258,
-	957, -1000, 979, -1000, -1000, 233, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 8625, 8625, -1000, 8625, 8625,
-	8625, 769, 682, 463, 214, -1000, 1012, -1000, -1000, 952,
-	13691, 13691, -1000, -1000, 841, -1000, -1000, 835, 835, 835,
-	364, -1000, -1000, 1469, 11445, 1198, -1000, 571, -1000, -1000,
-	536, 163, 570, -1000, 13691, -170, -1000, 1012, 606, 832,
-	1038, 668, -1000, 893, -1000, -133, -1000, -1000, -1000, -1000,
-	-1000, 420, -1000, 420, -1000, -1000, 881, 842, 11445, 13691,
-	13971, -1000, -1000, 13691, -1000, -1000, -1000, -1000, -1000, 142,
-	226, 1037, 10885, 1012, 262, 1254, 1242, -1000, -1000, 299,
-	299, 299, 299, 78, -1000, -1000, 1274, -1000, 1012, -1000,
-	1009, 376, -1000, 13691, -1000, -1000, -1000, -1000, -1000, 1092,
-	1830, 138, -1000, 760, 472, 629, 468, 451, 450, 441,
-	432, 430, 426, -1000, -1000, -1000, 1273, -1000, -1000, -1000,
-	1263, 1036, -1000, 1035, 8059, 172, -1000, -1000, 814, 810,
-	-1000, -1000, -1000, -1000, -1000, 830, 1033, 1031, 911, -1000,
-	145, 226, -1000, -1000, -1000, -1000, 11445, 824, 197, 211,
-	-1000, 8059, 8059, -1000, -1000, -1000, -1000, 769, 148, -109,
-	14251, 950, 769, 13691, -1000, -1000, 13691, -1000, -107, 1830,
-	13691, -1000, 663, -1000, -1000, 540, 637, 540, 540, 540,
-	540, 540, 316, 316, 13691, 11445, 606, -1000, -88, 294,
-	-1000, -1000, -183, 11445, 11445, -99, 13691, 8059, 226, -1000,
-	820, 1089, 813, -1000, 13691, 1030, 463, 947, -1000, 1146,
-	-96, -129, 941, -1000, -1000, 1012, 809, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 511,
-	511, 807, 793, -1000, -1000, -1000, 143, 624, 620, 614,
-	605, -11, -1000, 1237, 1260, 1016, 791, 779, -1000, -206,
-	-1000, 463, -1000, -1000, -100, -1000, 197, 1153, 11445, -1000,
-	1141, -1000, 13691, -1000, 1830, -1000, -1000, 243, 1469, 595,
-	-1000, 569, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 11165,
-	1469, 10885, 1260, 1469, 8059, -1000, -1000, 186, 777, -102,
-	769, -1000, 13971, 1092, -1000, -1000, -1000, 360, 1092, 772,
-	1469, -1000, 463, 192, -1000, -110, -1000, 1014, -1000, 4791,
-	-1000, -1000, -1000, 1012, -154, 13691, -1000, 8342, -1000, 768,
-	299, 769, -1000, -1000, -1000,
+	596, 596, 862, 853, -1000, -1000, -1000, 203, 683, 723,
+	722, 644, 8, -1000, 1290, 1309, 1062, 851, 844, -1000,
+	-196, -1000, 484, -1000, -1000, -103, -1000, 164, 1218, 11778,
+	-1000, 1199, -1000, 14024, -1000, 1205, -1000, -1000, 221, 915,
+	637, -1000, 628, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	11498, 915, 11218, 1309, 915, 8112, -1000, -1000, 159, 829,
+	-128, 826, -1000, 14304, 1117, -1000, -1000, -1000, 394, 1117,
+	825, 915, -1000, 484, 156, -1000, -136, -1000, 1061, -1000,
+	4844, -1000, -1000, -1000, 1060, -158, 14024, -1000, 8395, -1000,
+	823, 118, 826, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1539, 59, 809, 1538, 1537, 1530, 1323, 1321, 1299,
-	1528, 1526, 1525, 1524, 1523, 1522, 1519, 1517, 1516, 1514,
-	1510, 1508, 1507, 1506, 331, 1505, 1501, 1500, 102, 1499,
-	98, 1498, 1497, 53, 139, 74, 51, 1060, 1496, 39,
-	85, 122, 1493, 67, 1492, 1491, 99, 1490, 83, 1488,
-	1487, 130, 1486, 1485, 23, 9, 1484, 26, 1479, 1478,
-	91, 135, 1477, 1474, 1472, 1470, 1458, 1453, 76, 8,
-	13, 14, 24, 1452, 200, 21, 1451, 68, 1446, 1443,
-	1439, 1436, 47, 1434, 71, 19, 32, 70, 1433, 22,
-	1432, 77, 44, 30, 11, 92, 81, 1430, 43, 82,
-	66, 1426, 1424, 666, 1423, 1419, 1418, 1416, 1415, 1414,
-	529, 646, 1413, 1410, 1409, 55, 0, 217, 45, 97,
-	1407, 52, 1406, 1797, 89, 84, 29, 1405, 49, 54,
-	50, 1401, 1400, 46, 90, 28, 88, 87, 1387, 1386,
-	1381, 1380, 1379, 1062, 40, 132, 75, 1378, 1377, 17,
-	58, 57, 36, 61, 79, 100, 1375, 1374, 33, 1372,
-	16, 20, 1371, 2, 65, 1369, 1367, 1365, 1363, 41,
-	25, 1362, 15, 12, 7, 4, 3, 1357, 1355, 1353,
-	5, 1351, 27, 1350, 6, 1348, 1, 1346, 1345, 1344,
-	1343, 1342, 1339, 1336, 1335, 1334, 1333, 48, 18, 42,
-	31, 37, 56, 34, 1332, 10, 1315, 1311, 1427, 585,
-	1307, 1305, 1303, 1301, 108,
+	0, 1620, 19, 875, 1619, 1618, 1616, 1355, 1353, 1347,
+	1615, 1604, 1603, 1602, 1599, 1597, 1594, 1585, 1582, 1581,
+	1580, 1578, 1576, 1573, 533, 1570, 1567, 1566, 97, 1560,
+	115, 1559, 1557, 54, 84, 55, 51, 1202, 1556, 40,
+	96, 107, 1554, 77, 1550, 1549, 156, 1547, 95, 1542,
+	1541, 75, 1540, 1539, 25, 6, 1538, 37, 1535, 1534,
+	100, 70, 1532, 1531, 1530, 1529, 1528, 1527, 81, 17,
+	18, 14, 31, 1526, 65, 52, 1524, 79, 1523, 1520,
+	1519, 1518, 50, 1517, 83, 21, 39, 82, 1514, 15,
+	1513, 93, 56, 36, 13, 108, 91, 1512, 53, 92,
+	76, 1511, 1508, 713, 1505, 1502, 1501, 1499, 1497, 1495,
+	704, 738, 1493, 1492, 1491, 57, 0, 313, 4, 109,
+	1490, 58, 1489, 2044, 105, 94, 33, 1486, 43, 1699,
+	66, 1465, 1462, 49, 104, 29, 103, 101, 1457, 1454,
+	1453, 1452, 1451, 1157, 42, 30, 46, 1450, 1445, 22,
+	59, 60, 44, 74, 85, 98, 1443, 1441, 41, 1440,
+	16, 23, 1433, 2, 71, 1432, 1430, 1424, 1419, 48,
+	32, 1418, 24, 26, 1, 3, 8, 1417, 1415, 1413,
+	5, 1410, 28, 1409, 9, 1407, 7, 1401, 1397, 1393,
+	1392, 1385, 1384, 1383, 1382, 1381, 1379, 11, 27, 47,
+	34, 10, 61, 45, 1377, 12, 1368, 1360, 1521, 681,
+	1357, 1351, 1349, 1344, 99,
 }
 
 var yyR1 = [...]int{
@@ -2516,51 +2516,51 @@ var yyR1 = [...]int{
 	176, 176, 176, 176, 176, 176, 176, 165, 165, 201,
 	201, 174, 174, 174, 171, 171, 171, 171, 171, 171,
 	171, 171, 164, 164, 173, 173, 172, 172, 158, 158,
-	158, 158, 158, 159, 160, 160, 160, 160, 157, 198,
-	198, 198, 197, 197, 161, 161, 163, 163, 168, 168,
-	168, 169, 169, 169, 170, 170, 170, 12, 12, 12,
-	12, 12, 12, 12, 12, 12, 12, 12, 12, 187,
+	158, 158, 158, 159, 160, 160, 160, 160, 160, 157,
+	198, 198, 198, 197, 197, 161, 161, 163, 163, 168,
+	168, 168, 169, 169, 169, 170, 170, 170, 12, 12,
+	12, 12, 12, 12, 12, 12, 12, 12, 12, 12,
 	187, 187, 187, 187, 187, 187, 187, 187, 187, 187,
-	211, 211, 212, 212, 212, 212, 212, 212, 212, 181,
-	179, 179, 180, 180, 13, 14, 14, 14, 14, 14,
-	15, 15, 17, 18, 18, 18, 18, 18, 18, 18,
+	187, 211, 211, 212, 212, 212, 212, 212, 212, 212,
+	181, 179, 179, 180, 180, 13, 14, 14, 14, 14,
+	14, 15, 15, 17, 18, 18, 18, 18, 18, 18,
 	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 18, 18, 18, 108, 108, 105, 105,
-	106, 106, 107, 107, 107, 109, 109, 109, 132, 132,
-	132, 19, 19, 21, 21, 22, 23, 20, 20, 20,
-	20, 20, 213, 24, 25, 25, 26, 26, 26, 30,
-	30, 30, 28, 28, 29, 29, 35, 35, 34, 34,
-	36, 36, 36, 36, 120, 120, 120, 119, 119, 38,
-	38, 39, 39, 40, 40, 41, 41, 41, 53, 53,
-	89, 89, 89, 92, 92, 42, 42, 42, 42, 43,
-	43, 44, 44, 45, 45, 127, 127, 126, 126, 126,
-	125, 125, 47, 47, 47, 49, 48, 48, 48, 48,
-	50, 50, 52, 52, 51, 51, 54, 54, 54, 54,
-	55, 55, 90, 90, 37, 37, 37, 37, 37, 37,
-	37, 104, 104, 57, 57, 56, 56, 56, 56, 56,
-	56, 56, 56, 56, 56, 67, 67, 67, 67, 67,
-	67, 58, 58, 58, 58, 58, 58, 58, 33, 33,
-	68, 68, 68, 74, 69, 69, 61, 61, 61, 61,
+	18, 18, 18, 18, 18, 18, 18, 108, 108, 105,
+	105, 106, 106, 107, 107, 107, 109, 109, 109, 132,
+	132, 132, 19, 19, 21, 21, 22, 23, 20, 20,
+	20, 20, 20, 213, 24, 25, 25, 26, 26, 26,
+	30, 30, 30, 28, 28, 29, 29, 35, 35, 34,
+	34, 36, 36, 36, 36, 120, 120, 120, 119, 119,
+	38, 38, 39, 39, 40, 40, 41, 41, 41, 53,
+	53, 89, 89, 89, 92, 92, 42, 42, 42, 42,
+	43, 43, 44, 44, 45, 45, 127, 127, 126, 126,
+	126, 125, 125, 47, 47, 47, 49, 48, 48, 48,
+	48, 50, 50, 52, 52, 51, 51, 54, 54, 54,
+	54, 55, 55, 90, 90, 37, 37, 37, 37, 37,
+	37, 37, 104, 104, 57, 57, 56, 56, 56, 56,
+	56, 56, 56, 56, 56, 56, 67, 67, 67, 67,
+	67, 67, 58, 58, 58, 58, 58, 58, 58, 33,
+	33, 68, 68, 68, 74, 69, 69, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
-	61, 61, 61, 61, 61, 61, 61, 61, 65, 65,
-	65, 63, 63, 63, 63, 63, 63, 63, 63, 63,
-	63, 63, 63, 63, 63, 63, 64, 64, 64, 64,
-	64, 64, 64, 64, 64, 214, 214, 66, 66, 66,
-	66, 31, 31, 31, 31, 31, 130, 130, 133, 133,
+	61, 61, 61, 61, 61, 61, 61, 61, 61, 65,
+	65, 65, 63, 63, 63, 63, 63, 63, 63, 63,
+	63, 63, 63, 63, 63, 63, 63, 64, 64, 64,
+	64, 64, 64, 64, 64, 64, 214, 214, 66, 66,
+	66, 66, 31, 31, 31, 31, 31, 130, 130, 133,
 	133, 133, 133, 133, 133, 133, 133, 133, 133, 133,
-	133, 133, 134, 134, 134, 134, 134, 134, 134, 78,
-	78, 32, 32, 76, 76, 77, 79, 79, 75, 75,
-	75, 60, 60, 60, 60, 60, 60, 60, 60, 62,
-	62, 62, 80, 80, 81, 81, 82, 82, 83, 83,
-	84, 85, 85, 85, 86, 86, 86, 86, 87, 87,
-	87, 59, 59, 59, 59, 59, 59, 88, 88, 88,
-	88, 93, 93, 70, 70, 72, 72, 71, 73, 94,
-	94, 98, 95, 95, 99, 99, 99, 99, 97, 97,
-	97, 122, 122, 122, 102, 102, 110, 110, 111, 111,
-	103, 103, 112, 112, 112, 112, 112, 112, 112, 112,
-	112, 112, 113, 113, 113, 114, 114, 117, 117, 118,
-	118, 123, 123, 124, 124, 115, 115, 115, 115, 115,
+	133, 133, 133, 134, 134, 134, 134, 134, 134, 134,
+	78, 78, 32, 32, 76, 76, 77, 79, 79, 75,
+	75, 75, 60, 60, 60, 60, 60, 60, 60, 60,
+	62, 62, 62, 80, 80, 81, 81, 82, 82, 83,
+	83, 84, 85, 85, 85, 86, 86, 86, 86, 87,
+	87, 87, 59, 59, 59, 59, 59, 59, 88, 88,
+	88, 88, 93, 93, 70, 70, 72, 72, 71, 73,
+	94, 94, 98, 95, 95, 99, 99, 99, 99, 97,
+	97, 97, 122, 122, 122, 102, 102, 110, 110, 111,
+	111, 103, 103, 112, 112, 112, 112, 112, 112, 112,
+	112, 112, 112, 113, 113, 113, 114, 114, 117, 117,
+	118, 118, 123, 123, 124, 124, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
@@ -2571,7 +2571,7 @@ var yyR1 = [...]int{
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
-	115, 115, 116, 116, 116, 116, 116, 116, 116, 116,
+	115, 115, 115, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
@@ -2584,8 +2584,8 @@ var yyR1 = [...]int{
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 116, 116, 116, 116, 208, 209, 128, 129, 129,
-	129,
+	116, 116, 116, 116, 116, 116, 208, 209, 128, 129,
+	129, 129,
 }
 
 var yyR2 = [...]int{
@@ -2622,50 +2622,50 @@ var yyR2 = [...]int{
 	3, 3, 3, 3, 3, 3, 3, 0, 1, 1,
 	1, 0, 2, 5, 2, 3, 3, 2, 3, 2,
 	3, 4, 1, 1, 1, 3, 3, 2, 2, 5,
-	5, 8, 8, 13, 1, 1, 2, 2, 10, 0,
-	1, 1, 0, 3, 0, 1, 1, 3, 0, 1,
-	3, 1, 2, 3, 1, 1, 1, 6, 11, 13,
-	7, 7, 7, 12, 7, 7, 7, 4, 5, 1,
+	5, 8, 8, 13, 1, 1, 2, 2, 2, 10,
+	0, 1, 1, 0, 3, 0, 1, 1, 3, 0,
+	1, 3, 1, 2, 3, 1, 1, 1, 6, 11,
+	13, 7, 7, 7, 12, 7, 7, 7, 4, 5,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 1, 7,
-	1, 3, 8, 8, 5, 4, 6, 5, 4, 4,
-	3, 2, 3, 4, 4, 4, 4, 4, 4, 4,
-	4, 3, 3, 3, 3, 4, 3, 6, 4, 2,
-	4, 2, 2, 2, 2, 3, 1, 1, 0, 1,
-	0, 1, 0, 2, 2, 0, 2, 2, 0, 1,
-	1, 2, 1, 1, 2, 1, 1, 2, 2, 2,
-	2, 2, 0, 2, 0, 2, 1, 2, 2, 0,
-	1, 1, 0, 1, 0, 1, 0, 1, 1, 3,
-	1, 2, 3, 5, 0, 1, 2, 1, 1, 0,
-	2, 1, 3, 1, 1, 1, 3, 3, 3, 7,
-	1, 1, 3, 1, 3, 4, 4, 4, 3, 2,
-	4, 0, 1, 0, 2, 0, 1, 0, 1, 2,
-	1, 1, 1, 2, 2, 1, 2, 3, 2, 3,
-	2, 2, 2, 1, 1, 3, 0, 5, 5, 5,
-	0, 2, 0, 4, 1, 3, 3, 2, 3, 1,
-	2, 0, 3, 1, 1, 3, 3, 4, 4, 5,
-	3, 4, 5, 6, 2, 1, 2, 1, 2, 1,
-	2, 1, 1, 1, 1, 1, 1, 1, 0, 2,
-	1, 1, 1, 3, 1, 3, 1, 1, 1, 1,
-	1, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 3, 3, 2, 2, 2, 2,
-	2, 2, 3, 3, 1, 1, 1, 1, 4, 5,
-	6, 4, 4, 6, 6, 6, 6, 8, 8, 6,
-	8, 8, 9, 7, 5, 4, 2, 2, 2, 2,
-	2, 2, 2, 2, 2, 0, 2, 4, 4, 4,
-	4, 0, 3, 4, 7, 3, 1, 1, 2, 3,
-	3, 1, 2, 2, 1, 1, 2, 1, 2, 2,
-	1, 2, 1, 2, 1, 1, 1, 1, 1, 0,
-	1, 0, 2, 1, 2, 4, 0, 2, 1, 3,
-	5, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	2, 2, 0, 3, 0, 2, 0, 3, 1, 3,
-	2, 0, 1, 1, 0, 2, 4, 4, 0, 2,
-	4, 2, 1, 3, 5, 4, 6, 1, 3, 3,
-	5, 0, 5, 1, 3, 1, 2, 3, 1, 1,
-	3, 3, 1, 3, 3, 3, 3, 3, 1, 2,
-	1, 1, 1, 1, 1, 1, 0, 2, 0, 3,
-	0, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 0, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	7, 1, 3, 8, 8, 5, 4, 6, 5, 4,
+	4, 3, 2, 3, 4, 4, 4, 4, 4, 4,
+	4, 4, 3, 3, 3, 3, 4, 3, 6, 4,
+	2, 4, 2, 2, 2, 2, 3, 1, 1, 0,
+	1, 0, 1, 0, 2, 2, 0, 2, 2, 0,
+	1, 1, 2, 1, 1, 2, 1, 1, 2, 2,
+	2, 2, 2, 0, 2, 0, 2, 1, 2, 2,
+	0, 1, 1, 0, 1, 0, 1, 0, 1, 1,
+	3, 1, 2, 3, 5, 0, 1, 2, 1, 1,
+	0, 2, 1, 3, 1, 1, 1, 3, 3, 3,
+	7, 1, 1, 3, 1, 3, 4, 4, 4, 3,
+	2, 4, 0, 1, 0, 2, 0, 1, 0, 1,
+	2, 1, 1, 1, 2, 2, 1, 2, 3, 2,
+	3, 2, 2, 2, 1, 1, 3, 0, 5, 5,
+	5, 0, 2, 0, 4, 1, 3, 3, 2, 3,
+	1, 2, 0, 3, 1, 1, 3, 3, 4, 4,
+	5, 3, 4, 5, 6, 2, 1, 2, 1, 2,
+	1, 2, 1, 1, 1, 1, 1, 1, 1, 0,
+	2, 1, 1, 1, 3, 1, 3, 1, 1, 1,
+	1, 1, 3, 3, 3, 3, 3, 3, 3, 3,
+	3, 3, 3, 3, 3, 3, 3, 2, 2, 2,
+	2, 2, 2, 3, 3, 1, 1, 1, 1, 4,
+	5, 6, 4, 4, 6, 6, 6, 6, 8, 8,
+	6, 8, 8, 9, 7, 5, 4, 2, 2, 2,
+	2, 2, 2, 2, 2, 2, 0, 2, 4, 4,
+	4, 4, 0, 3, 4, 7, 3, 1, 1, 2,
+	3, 3, 1, 2, 2, 1, 1, 2, 1, 2,
+	2, 1, 2, 1, 2, 1, 1, 1, 1, 1,
+	0, 1, 0, 2, 1, 2, 4, 0, 2, 1,
+	3, 5, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 2, 2, 0, 3, 0, 2, 0, 3, 1,
+	3, 2, 0, 1, 1, 0, 2, 4, 4, 0,
+	2, 4, 2, 1, 3, 5, 4, 6, 1, 3,
+	3, 5, 0, 5, 1, 3, 1, 2, 3, 1,
+	1, 3, 3, 1, 3, 3, 3, 3, 3, 1,
+	2, 1, 1, 1, 1, 1, 1, 0, 2, 0,
+	3, 0, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 1, 0, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2690,8 +2690,8 @@ var yyR2 = [...]int{
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 0, 0, 1,
-	1,
+	1, 1, 1, 1, 1, 1, 1, 1, 0, 0,
+	1, 1,
 }
 
 var yyChk = [...]int{
@@ -2846,204 +2846,204 @@ var yyChk = [...]int{
 	-61, -61, -61, -61, -209, 57, 135, -72, 32, -2,
 	-208, -117, -117, 53, 54, -209, -209, -209, -54, -175,
 	-177, 291, -176, 51, 132, 64, 164, 165, 166, 167,
-	168, 169, 170, -172, -85, -197, 50, 66, 158, -197,
-	50, -161, -117, -198, -208, -209, 54, 52, 58, 54,
-	-149, -146, -146, 54, 54, -173, -117, -51, -163, -117,
-	173, -204, -205, -7, -9, -8, 52, -89, -208, 125,
-	-81, 14, 16, -209, -209, -209, -209, -31, 90, 291,
-	9, -70, -2, 109, -117, -174, 50, -176, 291, 52,
-	293, 55, -165, 80, 57, 80, 80, 80, 80, 80,
-	80, 80, 9, 10, 52, 52, -37, -194, 157, -196,
-	54, 54, 54, 52, 52, -191, 53, 51, 174, -205,
-	-173, 54, -179, -180, 145, 135, -37, -69, -209, 289,
-	47, 294, -94, -209, -117, -117, -178, -176, -117, 58,
-	-201, 50, 69, 58, -201, -201, -201, -201, -201, -160,
-	-160, -163, -173, -209, 286, 54, 176, 301, 302, 144,
-	303, 157, 304, 305, -90, 310, -173, -173, -192, 291,
-	-117, -37, -205, 54, -186, -209, 53, -117, 52, 37,
-	290, 295, -208, 54, 53, -197, -197, 54, 54, 291,
-	58, 16, 58, 58, 58, 58, 302, 144, 304, 16,
-	-55, 52, 54, 54, 312, -184, -180, 32, -173, 37,
-	-117, -176, 128, -175, 58, 58, 306, -123, -175, -89,
-	-55, -175, -37, 147, 54, 291, -209, -51, -174, 109,
-	-174, 54, -175, 148, 294, 52, -118, -208, 295, -163,
-	-61, 144, 54, -209, -209,
+	168, 169, 170, -172, -85, -197, 50, 66, 28, 158,
+	-197, 50, -161, -117, -198, -208, -209, 54, 52, 58,
+	54, -149, -146, -146, 54, 54, -173, -117, -51, -163,
+	-117, 173, -204, -205, -7, -9, -8, 52, -89, -208,
+	125, -81, 14, 16, -209, -209, -209, -209, -31, 90,
+	291, 9, -70, -2, 109, -117, -174, 50, -176, 291,
+	52, 293, 55, -165, 80, 57, 80, 80, 80, 80,
+	80, 80, 80, 9, 10, 52, 52, -37, -194, 157,
+	-196, 54, 54, 54, 52, 52, -191, 53, 51, 174,
+	-205, -173, 54, -179, -180, 145, 135, -37, -69, -209,
+	289, 47, 294, -94, -209, -117, -117, -178, -176, -117,
+	58, -201, 50, 69, 58, -201, -201, -201, -201, -201,
+	-160, -160, -163, -173, -209, 286, 54, 176, 301, 302,
+	144, 303, 157, 304, 305, -90, 310, -173, -173, -192,
+	291, -117, -37, -205, 54, -186, -209, 53, -117, 52,
+	37, 290, 295, -208, 54, 53, -197, -197, 54, 54,
+	291, 58, 16, 58, 58, 58, 58, 302, 144, 304,
+	16, -55, 52, 54, 54, 312, -184, -180, 32, -173,
+	37, -117, -176, 128, -175, 58, 58, 306, -123, -175,
+	-89, -55, -175, -37, 147, 54, 291, -209, -51, -174,
+	109, -174, 54, -175, 148, 294, 52, -118, -208, 295,
+	-163, -61, 144, 54, -209, -209,
 }
 
 var yyDef = [...]int{
 	0, -2, 2, -2, 5, 6, 7, 8, 9, 10,
 	11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-	21, 696, 0, 452, 452, 452, 452, 452, 452, 0,
-	-2, 750, 0, 0, 0, 0, -2, 442, 443, 0,
-	445, 446, 1017, 1017, 1017, 1017, 1017, 0, 33, 34,
-	1015, 1, 3, 704, 0, 0, 456, 459, 454, 0,
-	750, 0, 0, 0, 60, 0, 339, 0, 0, 748,
-	748, 0, 0, 748, 95, 0, 0, 0, 751, 0,
-	746, 0, 746, 746, 746, 0, 401, 524, 771, 772,
-	882, 883, 884, 885, 886, 887, 888, 889, 890, 891,
-	892, 893, 894, 895, 896, 897, 898, 899, 900, 901,
-	902, 903, 904, 905, 906, 907, 908, 909, 910, 911,
-	912, 913, 914, 915, 916, 917, 918, 919, 920, 921,
-	922, 923, 924, 925, 926, 927, 928, 929, 930, 931,
-	932, 933, 934, 935, 936, 937, 938, 939, 940, 941,
-	942, 943, 944, 945, 946, 947, 948, 949, 950, 951,
-	952, 953, 954, 955, 956, 957, 958, 959, 960, 961,
-	962, 963, 964, 965, 966, 967, 968, 969, 970, 971,
-	972, 973, 974, 975, 976, 977, 978, 979, 980, 981,
-	982, 983, 984, 985, 986, 987, 988, 989, 990, 991,
-	992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001,
-	1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011,
-	1012, 1013, 1014, 0, 0, 0, 0, 1018, 1018, 1018,
-	1018, 0, 1018, 430, 419, 421, 422, 423, 424, 1018,
-	439, 440, 429, 441, 444, 447, 448, 449, 450, 451,
-	27, 708, 0, 0, 696, 29, 0, 452, 457, 458,
-	462, 460, 461, 453, 0, 470, 474, 0, 534, 0,
-	539, 541, -2, -2, 0, 576, 577, 578, 579, 580,
-	0, 0, 0, 0, 0, 0, 0, 604, 605, 606,
-	607, 681, 682, 683, 684, 685, 686, 687, 688, 543,
-	544, 678, 728, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 669, 0, 635, 635, 635, 635, 635, 635,
-	635, 635, 0, 0, 0, 0, 0, 0, 0, 481,
-	483, 484, 485, 505, 0, 507, 0, 0, 41, 45,
-	0, 984, 732, -2, -2, 0, 0, 769, 770, -2,
-	894, -2, 767, 768, 775, 776, 777, 778, 779, 780,
-	781, 782, 783, 784, 785, 786, 787, 788, 789, 790,
-	791, 792, 793, 794, 795, 796, 797, 798, 799, 800,
-	801, 802, 803, 804, 805, 806, 807, 808, 809, 810,
-	811, 812, 813, 814, 815, 816, 817, 818, 819, 820,
-	821, 822, 823, 824, 825, 826, 827, 828, 829, 830,
-	831, 832, 833, 834, 835, 836, 837, 838, 839, 840,
-	841, 842, 843, 844, 845, 846, 847, 848, 849, 850,
-	851, 852, 853, 854, 855, 856, 857, 858, 859, 860,
-	861, 862, 863, 864, 865, 866, 867, 868, 869, 870,
-	871, 872, 873, 874, 875, 876, 877, 878, 879, 880,
-	881, 0, 108, 0, 0, 115, 116, 117, 118, 119,
+	21, 697, 0, 453, 453, 453, 453, 453, 453, 0,
+	-2, 751, 0, 0, 0, 0, -2, 443, 444, 0,
+	446, 447, 1018, 1018, 1018, 1018, 1018, 0, 33, 34,
+	1016, 1, 3, 705, 0, 0, 457, 460, 455, 0,
+	751, 0, 0, 0, 60, 0, 340, 0, 0, 749,
+	749, 0, 0, 749, 95, 0, 0, 0, 752, 0,
+	747, 0, 747, 747, 747, 0, 402, 525, 772, 773,
+	883, 884, 885, 886, 887, 888, 889, 890, 891, 892,
+	893, 894, 895, 896, 897, 898, 899, 900, 901, 902,
+	903, 904, 905, 906, 907, 908, 909, 910, 911, 912,
+	913, 914, 915, 916, 917, 918, 919, 920, 921, 922,
+	923, 924, 925, 926, 927, 928, 929, 930, 931, 932,
+	933, 934, 935, 936, 937, 938, 939, 940, 941, 942,
+	943, 944, 945, 946, 947, 948, 949, 950, 951, 952,
+	953, 954, 955, 956, 957, 958, 959, 960, 961, 962,
+	963, 964, 965, 966, 967, 968, 969, 970, 971, 972,
+	973, 974, 975, 976, 977, 978, 979, 980, 981, 982,
+	983, 984, 985, 986, 987, 988, 989, 990, 991, 992,
+	993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002,
+	1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012,
+	1013, 1014, 1015, 0, 0, 0, 0, 1019, 1019, 1019,
+	1019, 0, 1019, 431, 420, 422, 423, 424, 425, 1019,
+	440, 441, 430, 442, 445, 448, 449, 450, 451, 452,
+	27, 709, 0, 0, 697, 29, 0, 453, 458, 459,
+	463, 461, 462, 454, 0, 471, 475, 0, 535, 0,
+	540, 542, -2, -2, 0, 577, 578, 579, 580, 581,
+	0, 0, 0, 0, 0, 0, 0, 605, 606, 607,
+	608, 682, 683, 684, 685, 686, 687, 688, 689, 544,
+	545, 679, 729, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 670, 0, 636, 636, 636, 636, 636, 636,
+	636, 636, 0, 0, 0, 0, 0, 0, 0, 482,
+	484, 485, 486, 506, 0, 508, 0, 0, 41, 45,
+	0, 985, 733, -2, -2, 0, 0, 770, 771, -2,
+	895, -2, 768, 769, 776, 777, 778, 779, 780, 781,
+	782, 783, 784, 785, 786, 787, 788, 789, 790, 791,
+	792, 793, 794, 795, 796, 797, 798, 799, 800, 801,
+	802, 803, 804, 805, 806, 807, 808, 809, 810, 811,
+	812, 813, 814, 815, 816, 817, 818, 819, 820, 821,
+	822, 823, 824, 825, 826, 827, 828, 829, 830, 831,
+	832, 833, 834, 835, 836, 837, 838, 839, 840, 841,
+	842, 843, 844, 845, 846, 847, 848, 849, 850, 851,
+	852, 853, 854, 855, 856, 857, 858, 859, 860, 861,
+	862, 863, 864, 865, 866, 867, 868, 869, 870, 871,
+	872, 873, 874, 875, 876, 877, 878, 879, 880, 881,
+	882, 0, 108, 0, 0, 115, 116, 117, 118, 119,
 	120, 121, 122, 123, 124, 125, 126, 127, 128, 129,
-	130, 131, 132, 133, 134, 135, 136, 137, 0, 340,
-	341, 0, 96, 0, 0, 0, 0, 0, 0, 105,
-	0, 1018, 0, 0, 0, 0, 0, 0, 0, 400,
-	0, 402, 1018, 1018, 1018, 1018, 1018, 1018, 1018, 1018,
-	411, 1019, 1020, 412, 413, 414, 1018, 1018, 416, 0,
-	431, 0, 425, 28, 1016, 22, 0, 0, 705, 0,
-	697, 698, 701, 704, 27, 459, 0, 464, 463, 455,
-	0, 471, 0, 0, 0, 475, 0, 477, 478, 0,
-	537, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 561, 562, 563, 564, 565, 566, 567, 540, 0,
-	554, 0, 0, 0, 596, 597, 598, 599, 600, 601,
-	0, 466, 27, 0, 574, 0, 0, 0, 0, 0,
-	0, 0, 0, 462, 0, 670, 0, 626, 0, 627,
-	628, 629, 630, 631, 632, 633, 634, 662, 0, 664,
-	665, 666, 667, 668, 204, 205, 206, 207, 208, 209,
-	210, 211, 212, 213, 230, 231, 0, 466, 0, 0,
-	43, 0, 523, 0, 0, 0, 0, 0, 0, 512,
-	0, 0, 515, 0, 0, 0, 0, 506, 0, 0,
-	526, 948, 508, 0, 510, 511, -2, 0, 0, 0,
-	39, 40, 0, 46, 984, 48, 49, 0, 0, 0,
-	285, 741, 742, 743, 739, 348, 0, 113, 279, 275,
+	130, 131, 132, 133, 134, 135, 136, 137, 0, 341,
+	342, 0, 96, 0, 0, 0, 0, 0, 0, 105,
+	0, 1019, 0, 0, 0, 0, 0, 0, 0, 401,
+	0, 403, 1019, 1019, 1019, 1019, 1019, 1019, 1019, 1019,
+	412, 1020, 1021, 413, 414, 415, 1019, 1019, 417, 0,
+	432, 0, 426, 28, 1017, 22, 0, 0, 706, 0,
+	698, 699, 702, 705, 27, 460, 0, 465, 464, 456,
+	0, 472, 0, 0, 0, 476, 0, 478, 479, 0,
+	538, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 562, 563, 564, 565, 566, 567, 568, 541, 0,
+	555, 0, 0, 0, 597, 598, 599, 600, 601, 602,
+	0, 467, 27, 0, 575, 0, 0, 0, 0, 0,
+	0, 0, 0, 463, 0, 671, 0, 627, 0, 628,
+	629, 630, 631, 632, 633, 634, 635, 663, 0, 665,
+	666, 667, 668, 669, 204, 205, 206, 207, 208, 209,
+	210, 211, 212, 213, 230, 231, 0, 467, 0, 0,
+	43, 0, 524, 0, 0, 0, 0, 0, 0, 513,
+	0, 0, 516, 0, 0, 0, 0, 507, 0, 0,
+	527, 949, 509, 0, 511, 512, -2, 0, 0, 0,
+	39, 40, 0, 46, 985, 48, 49, 0, 0, 0,
+	285, 742, 743, 744, 740, 349, 0, 113, 279, 275,
 	139, 140, 141, 142, 265, 203, 265, 265, 265, 265,
 	265, 237, 265, 265, 282, 282, 282, 282, 282, 246,
 	247, 248, 249, 250, 251, 252, 0, 0, 222, 265,
 	265, 265, 226, 265, 228, 265, 255, 256, 257, 258,
 	259, 260, 261, 262, 267, 267, 267, 269, 269, 220,
-	221, 114, 0, 0, 99, 0, 1018, 0, 1018, 0,
-	0, 0, 71, 72, 106, 0, 0, 367, 0, 395,
-	747, 0, 1018, 398, 399, 525, 773, 774, 403, 404,
-	405, 406, 407, 408, 409, 410, 415, 418, 432, 426,
-	427, 420, 709, 0, 0, 0, 0, 0, 700, 702,
-	703, 708, 30, 462, 0, 689, 0, 0, 0, 465,
-	25, 535, 536, 538, 555, 0, 557, 559, 476, 472,
-	0, 679, -2, 545, 546, 570, 571, 572, 0, 0,
-	0, 0, 568, 550, 0, 581, 582, 583, 584, 585,
-	586, 587, 588, 589, 590, 591, 592, 595, 646, 647,
-	603, 0, 593, 594, 602, 0, 0, 467, 468, 573,
-	0, 727, 27, 0, 0, 0, 0, 0, 678, 0,
-	0, 0, 0, 676, 673, 0, 0, 636, 663, 0,
-	0, 0, 0, 0, 0, 522, 530, 729, 0, 482,
-	501, 503, 0, 498, 513, 514, 516, 0, 518, 0,
-	520, 521, 486, 487, 488, 0, 0, 0, 0, 509,
-	530, 0, 530, 42, 733, 47, 0, 0, 52, 53,
-	734, 735, 736, 737, 286, 0, 107, 349, 351, 354,
-	355, 356, 109, 110, 111, 112, 0, 342, 344, 0,
+	221, 114, 0, 0, 99, 0, 1019, 0, 1019, 0,
+	0, 0, 71, 72, 106, 0, 0, 368, 0, 396,
+	748, 0, 1019, 399, 400, 526, 774, 775, 404, 405,
+	406, 407, 408, 409, 410, 411, 416, 419, 433, 427,
+	428, 421, 710, 0, 0, 0, 0, 0, 701, 703,
+	704, 709, 30, 463, 0, 690, 0, 0, 0, 466,
+	25, 536, 537, 539, 556, 0, 558, 560, 477, 473,
+	0, 680, -2, 546, 547, 571, 572, 573, 0, 0,
+	0, 0, 569, 551, 0, 582, 583, 584, 585, 586,
+	587, 588, 589, 590, 591, 592, 593, 596, 647, 648,
+	604, 0, 594, 595, 603, 0, 0, 468, 469, 574,
+	0, 728, 27, 0, 0, 0, 0, 0, 679, 0,
+	0, 0, 0, 677, 674, 0, 0, 637, 664, 0,
+	0, 0, 0, 0, 0, 523, 531, 730, 0, 483,
+	502, 504, 0, 499, 514, 515, 517, 0, 519, 0,
+	521, 522, 487, 488, 489, 0, 0, 0, 0, 510,
+	531, 0, 531, 42, 734, 47, 0, 0, 52, 53,
+	735, 736, 737, 738, 286, 0, 107, 350, 352, 355,
+	356, 357, 109, 110, 111, 112, 0, 343, 345, 0,
 	0, 0, 0, 0, 322, 323, 144, 0, 146, 0,
-	0, 149, 150, 0, 152, 154, 342, 0, 0, 0,
+	0, 149, 150, 0, 152, 154, 343, 0, 0, 0,
 	0, 0, 143, 0, 281, 277, 276, 202, 0, 282,
 	282, 265, 282, 282, 282, 239, 240, 285, 0, 285,
 	285, 285, 285, 0, 0, 272, 272, 225, 227, 229,
 	214, 0, 267, 216, 217, 218, 0, 219, 0, 0,
-	65, 0, 97, 98, 66, 749, 67, 81, 0, 73,
-	74, 75, 0, 1017, 94, 0, 762, 368, 752, 753,
-	754, 755, 756, 757, 758, 759, 760, 761, 0, 0,
-	394, 1018, 397, 435, 0, 0, 0, 706, 707, 0,
-	699, 23, 0, 744, 745, 690, 691, 479, 556, 558,
-	560, 0, 466, 547, 568, 551, 0, 548, 0, 0,
-	542, 608, 0, 0, 575, -2, 611, 612, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 696, 0, 674,
-	0, 0, 625, 637, 638, 639, 640, 721, 0, 0,
-	-2, 0, 0, 696, 0, 0, 0, 495, 502, 0,
-	0, 496, 0, 497, 517, 519, 0, 0, 0, 0,
-	493, 696, 530, 38, 50, 51, 0, 0, 57, 287,
-	0, 352, 0, 0, 328, 0, 0, 0, 345, 314,
-	0, 0, 317, 0, 319, 339, 145, 0, 0, 0,
+	65, 0, 97, 98, 66, 750, 67, 81, 0, 73,
+	74, 75, 0, 1018, 94, 0, 763, 369, 753, 754,
+	755, 756, 757, 758, 759, 760, 761, 762, 0, 0,
+	395, 1019, 398, 436, 0, 0, 0, 707, 708, 0,
+	700, 23, 0, 745, 746, 691, 692, 480, 557, 559,
+	561, 0, 467, 548, 569, 552, 0, 549, 0, 0,
+	543, 609, 0, 0, 576, -2, 612, 613, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 697, 0, 675,
+	0, 0, 626, 638, 639, 640, 641, 722, 0, 0,
+	-2, 0, 0, 697, 0, 0, 0, 496, 503, 0,
+	0, 497, 0, 498, 518, 520, 0, 0, 0, 0,
+	494, 697, 531, 38, 50, 51, 0, 0, 57, 287,
+	0, 353, 0, 0, 328, 0, 0, 0, 346, 314,
+	0, 0, 317, 0, 319, 340, 145, 0, 0, 0,
 	151, 153, 0, 157, 158, 0, 175, 0, 0, 164,
 	0, 199, 168, 169, 170, 171, 172, 173, 0, 265,
 	265, 195, 0, 280, 138, 278, 0, 285, 285, 282,
 	285, 285, 285, 241, 0, 242, 243, 244, 245, 0,
 	263, 0, 223, 0, 0, 224, 0, 215, 0, 0,
-	0, -2, 100, 101, 0, 84, 0, 0, 0, 357,
-	0, 1017, 0, 382, 383, 384, 385, 386, 387, 388,
-	1017, 0, 369, 370, 371, 372, 373, 374, 375, 376,
-	377, 378, 379, 0, 1017, 763, 764, 765, 766, 0,
-	0, 396, 417, 0, 0, 433, 434, 710, 0, 24,
-	530, 0, 473, 680, 0, 549, 0, 569, 552, 609,
-	469, 0, 265, 265, 651, 265, 269, 654, 655, 265,
-	657, 265, 660, 0, 0, 0, 0, 679, 0, 0,
-	0, 671, 624, 677, 0, 31, 0, 721, 711, 723,
-	725, 0, 27, 0, 717, 0, 704, 730, 531, 731,
-	499, 0, 504, 0, 0, 0, 507, 0, 704, 37,
-	54, 55, 56, 350, 353, 0, 324, 265, 265, 0,
-	0, 0, 0, 0, 315, 316, 318, 320, 339, 163,
-	147, 342, 148, 0, 0, 0, 176, 0, 0, 0,
+	0, -2, 100, 101, 0, 84, 0, 0, 0, 358,
+	0, 1018, 0, 383, 384, 385, 386, 387, 388, 389,
+	1018, 0, 370, 371, 372, 373, 374, 375, 376, 377,
+	378, 379, 380, 0, 1018, 764, 765, 766, 767, 0,
+	0, 397, 418, 0, 0, 434, 435, 711, 0, 24,
+	531, 0, 474, 681, 0, 550, 0, 570, 553, 610,
+	470, 0, 265, 265, 652, 265, 269, 655, 656, 265,
+	658, 265, 661, 0, 0, 0, 0, 680, 0, 0,
+	0, 672, 625, 678, 0, 31, 0, 722, 712, 724,
+	726, 0, 27, 0, 718, 0, 705, 731, 532, 732,
+	500, 0, 505, 0, 0, 0, 508, 0, 705, 37,
+	54, 55, 56, 351, 354, 0, 324, 265, 265, 0,
+	0, 0, 0, 0, 315, 316, 318, 320, 340, 163,
+	147, 343, 148, 0, 0, 0, 176, 0, 0, 0,
 	167, 0, 0, 191, 0, 193, 0, 0, 266, 232,
 	233, 285, 234, 235, 236, 283, 284, 282, 0, 282,
 	0, 0, 0, 270, 0, 0, 0, 0, 0, 0,
-	0, 82, 83, 0, 0, 0, 380, 381, 361, 0,
-	362, 364, 365, 366, 0, 344, 360, 436, 437, 692,
-	480, 610, 553, 613, 648, 282, 652, 653, 656, 658,
-	659, 661, 615, 614, 616, 0, 0, 619, 0, 0,
-	0, 0, 0, 675, 0, 32, 0, 726, -2, 0,
-	0, 0, 44, 35, 0, 490, 491, 0, 0, 0,
-	526, 494, 36, 289, 0, 701, 327, 342, 334, 335,
-	0, 0, 342, 343, 344, 339, 321, 0, 0, 0,
+	0, 82, 83, 0, 0, 0, 381, 382, 362, 0,
+	363, 365, 366, 367, 0, 345, 361, 437, 438, 693,
+	481, 611, 554, 614, 649, 282, 653, 654, 657, 659,
+	660, 662, 616, 615, 617, 0, 0, 620, 0, 0,
+	0, 0, 0, 676, 0, 32, 0, 727, -2, 0,
+	0, 0, 44, 35, 0, 491, 492, 0, 0, 0,
+	527, 495, 36, 289, 0, 702, 327, 343, 334, 335,
+	0, 0, 343, 344, 345, 340, 321, 0, 0, 0,
 	160, 0, 165, 0, 200, 279, 174, 192, 194, 196,
 	238, 285, 264, 285, 273, 274, 0, 0, 0, 0,
 	0, 102, 103, 0, 85, 86, 87, 88, 89, 0,
-	0, 0, 0, 0, 345, 694, 0, 649, 650, 0,
-	0, 0, 0, 641, 623, 672, 0, 724, 0, -2,
-	0, 719, 718, 0, 500, 527, 528, 529, 489, 311,
+	0, 0, 0, 0, 346, 695, 0, 650, 651, 0,
+	0, 0, 0, 642, 624, 673, 0, 725, 0, -2,
+	0, 720, 719, 0, 501, 528, 529, 530, 490, 311,
 	290, 0, 292, 0, 307, 0, 0, 0, 0, 0,
-	0, 0, 0, 325, 326, 329, 0, 336, 337, 330,
-	0, 0, 345, 0, 0, 197, 159, 177, 0, 0,
-	201, 253, 254, 268, 271, 0, 0, 0, 90, 346,
-	0, 70, 76, 78, 79, 80, 0, 0, 0, 0,
-	26, 0, 0, 617, 618, 620, 621, 0, 0, 0,
-	0, 714, 27, 0, 492, 288, 0, 293, 0, 0,
-	0, 296, 0, 308, 298, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 155, 0, 0,
-	162, 166, 532, 0, 0, 92, 0, 0, 0, 77,
-	0, 96, 0, 390, 0, 0, 695, 693, 622, 0,
-	0, 0, 722, -2, 720, 312, 0, 294, 299, 297,
-	300, 309, 310, 301, 302, 303, 304, 305, 306, 342,
-	342, 0, 0, 156, 198, 161, 0, 0, 0, 0,
-	0, 0, 188, 0, 530, 0, 0, 0, 68, 0,
-	347, 91, 69, 358, 99, 389, 0, 0, 0, 642,
-	0, 645, 0, 291, 0, 331, 332, 0, 289, 0,
-	179, 0, 181, 182, 183, 184, 185, 186, 187, 0,
-	289, 0, 530, 289, 0, 363, 391, 0, 0, 643,
-	0, 295, 0, 311, 178, 180, 189, 0, 311, 0,
-	289, 62, 93, 0, 359, 0, 313, 0, 338, 0,
-	61, 533, 63, 0, 0, 0, 190, 0, 644, 0,
-	0, 0, 333, 392, 393,
+	0, 0, 0, 325, 326, 329, 0, 336, 338, 337,
+	330, 0, 0, 346, 0, 0, 197, 159, 177, 0,
+	0, 201, 253, 254, 268, 271, 0, 0, 0, 90,
+	347, 0, 70, 76, 78, 79, 80, 0, 0, 0,
+	0, 26, 0, 0, 618, 619, 621, 622, 0, 0,
+	0, 0, 715, 27, 0, 493, 288, 0, 293, 0,
+	0, 0, 296, 0, 308, 298, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 155, 0,
+	0, 162, 166, 533, 0, 0, 92, 0, 0, 0,
+	77, 0, 96, 0, 391, 0, 0, 696, 694, 623,
+	0, 0, 0, 723, -2, 721, 312, 0, 294, 299,
+	297, 300, 309, 310, 301, 302, 303, 304, 305, 306,
+	343, 343, 0, 0, 156, 198, 161, 0, 0, 0,
+	0, 0, 0, 188, 0, 531, 0, 0, 0, 68,
+	0, 348, 91, 69, 359, 99, 390, 0, 0, 0,
+	643, 0, 646, 0, 291, 0, 331, 332, 0, 289,
+	0, 179, 0, 181, 182, 183, 184, 185, 186, 187,
+	0, 289, 0, 531, 289, 0, 364, 392, 0, 0,
+	644, 0, 295, 0, 311, 178, 180, 189, 0, 311,
+	0, 289, 62, 93, 0, 360, 0, 313, 0, 339,
+	0, 61, 534, 63, 0, 0, 0, 190, 0, 645,
+	0, 0, 0, 333, 393, 394,
 }
 
 var yyTok1 = [...]int{
@@ -5347,8 +5347,14 @@ yydefault:
 			yyVAL.colIdent = NewColIdent("NO ACTION")
 		}
 	case 338:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:1867
+		{
+			yyVAL.colIdent = NewColIdent("SET DEFAULT")
+		}
+	case 339:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:1869
+//line sqlparser/parser.y:1873
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
 				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].str != "nonclustered"}, // CLUSTERED by default
@@ -5357,117 +5363,117 @@ yydefault:
 				Partition: yyDollar[10].indexPartition,
 			}
 		}
-	case 339:
+	case 340:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1880
+//line sqlparser/parser.y:1884
 		{
 			yyVAL.str = ""
 		}
-	case 340:
+	case 341:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1884
+//line sqlparser/parser.y:1888
 		{
 			yyVAL.str = "clustered"
 		}
-	case 341:
+	case 342:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1888
+//line sqlparser/parser.y:1892
 		{
 			yyVAL.str = "nonclustered"
 		}
-	case 342:
+	case 343:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1894
+//line sqlparser/parser.y:1898
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 343:
+	case 344:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1898
+//line sqlparser/parser.y:1902
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 344:
+	case 345:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1903
+//line sqlparser/parser.y:1907
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
-	case 346:
+	case 347:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1910
+//line sqlparser/parser.y:1914
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
-	case 347:
+	case 348:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1914
+//line sqlparser/parser.y:1918
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
-	case 348:
+	case 349:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1919
+//line sqlparser/parser.y:1923
 		{
 			yyVAL.str = ""
 		}
-	case 349:
+	case 350:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1923
+//line sqlparser/parser.y:1927
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
-	case 350:
+	case 351:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1927
+//line sqlparser/parser.y:1931
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
-	case 351:
+	case 352:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1935
+//line sqlparser/parser.y:1939
 		{
 			yyVAL.str = yyDollar[1].str
 		}
-	case 352:
+	case 353:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1939
+//line sqlparser/parser.y:1943
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
-	case 353:
+	case 354:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1943
+//line sqlparser/parser.y:1947
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
-	case 354:
+	case 355:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1949
+//line sqlparser/parser.y:1953
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
-	case 355:
+	case 356:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1953
+//line sqlparser/parser.y:1957
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
-	case 356:
+	case 357:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1957
+//line sqlparser/parser.y:1961
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 357:
+	case 358:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1963
+//line sqlparser/parser.y:1967
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 358:
+	case 359:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1967
+//line sqlparser/parser.y:1971
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5481,9 +5487,9 @@ yydefault:
 				IndexCols: yyDollar[10].indexColumns,
 			}
 		}
-	case 359:
+	case 360:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1981
+//line sqlparser/parser.y:1985
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5497,9 +5503,9 @@ yydefault:
 				IndexCols: yyDollar[12].indexColumns,
 			}
 		}
-	case 360:
+	case 361:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1995
+//line sqlparser/parser.y:1999
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5508,21 +5514,21 @@ yydefault:
 				ForeignKey: yyDollar[7].foreignKeyDefinition,
 			}
 		}
-	case 361:
+	case 362:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2004
+//line sqlparser/parser.y:2008
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 362:
+	case 363:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2008
+//line sqlparser/parser.y:2012
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 363:
+	case 364:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:2012
+//line sqlparser/parser.y:2016
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5535,9 +5541,9 @@ yydefault:
 				VindexCols: yyDollar[9].columns,
 			}
 		}
-	case 364:
+	case 365:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2025
+//line sqlparser/parser.y:2029
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5547,71 +5553,71 @@ yydefault:
 				},
 			}
 		}
-	case 365:
+	case 366:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2035
+//line sqlparser/parser.y:2039
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
-	case 366:
+	case 367:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2040
+//line sqlparser/parser.y:2044
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 367:
+	case 368:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2045
+//line sqlparser/parser.y:2049
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
-	case 368:
+	case 369:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2049
+//line sqlparser/parser.y:2053
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
-	case 389:
+	case 390:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2081
+//line sqlparser/parser.y:2085
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
-	case 390:
+	case 391:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2087
+//line sqlparser/parser.y:2091
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
-	case 391:
+	case 392:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2091
+//line sqlparser/parser.y:2095
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
-	case 392:
+	case 393:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2097
+//line sqlparser/parser.y:2101
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
-	case 393:
+	case 394:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2101
+//line sqlparser/parser.y:2105
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
-	case 394:
+	case 395:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2107
+//line sqlparser/parser.y:2111
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 395:
+	case 396:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2113
+//line sqlparser/parser.y:2117
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5619,16 +5625,16 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName, IfExists: exists}
 		}
-	case 396:
+	case 397:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2121
+//line sqlparser/parser.y:2125
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 397:
+	case 398:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2126
+//line sqlparser/parser.y:2130
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5636,42 +5642,36 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName.ToViewName(), IfExists: exists}
 		}
-	case 398:
+	case 399:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2134
+//line sqlparser/parser.y:2138
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 399:
+	case 400:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2138
+//line sqlparser/parser.y:2142
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 400:
+	case 401:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2144
+//line sqlparser/parser.y:2148
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
-	case 401:
+	case 402:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2148
+//line sqlparser/parser.y:2152
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
-	case 402:
+	case 403:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2153
+//line sqlparser/parser.y:2157
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
-	case 403:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2159
-		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
-		}
 	case 404:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2163
@@ -5686,7 +5686,7 @@ yydefault:
 		}
 	case 406:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2172
+//line sqlparser/parser.y:2171
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
@@ -5715,10 +5715,10 @@ yydefault:
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 411:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2192
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 412:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -5739,20 +5739,26 @@ yydefault:
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 415:
-		yyDollar = yyS[yypt-4 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2208
 		{
-			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 416:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2212
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
 	case 417:
-		yyDollar = yyS[yypt-6 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2216
+		{
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+		}
+	case 418:
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line sqlparser/parser.y:2220
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5762,29 +5768,23 @@ yydefault:
 				yyVAL.statement = &Show{Type: yyDollar[4].str, ShowTablesOpt: showTablesOpt}
 			}
 		}
-	case 418:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2226
-		{
-			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
-		}
 	case 419:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2230
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
 	case 420:
-		yyDollar = yyS[yypt-4 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2234
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 421:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2238
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
 	case 422:
 		yyDollar = yyS[yypt-2 : yypt+1]
@@ -5805,16 +5805,16 @@ yydefault:
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 425:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2260
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2254
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 426:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2266
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2264
 		{
-			yyVAL.str = string(yyDollar[1].bytes)
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 427:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -5823,40 +5823,40 @@ yydefault:
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 428:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2276
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2274
 		{
-			yyVAL.str = ""
+			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 429:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2280
 		{
-			yyVAL.str = "extended "
+			yyVAL.str = ""
 		}
 	case 430:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2286
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2284
 		{
-			yyVAL.str = ""
+			yyVAL.str = "extended "
 		}
 	case 431:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2290
 		{
-			yyVAL.str = "full "
+			yyVAL.str = ""
 		}
 	case 432:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2296
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2294
 		{
-			yyVAL.str = ""
+			yyVAL.str = "full "
 		}
 	case 433:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2300
 		{
-			yyVAL.str = yyDollar[2].tableIdent.v
+			yyVAL.str = ""
 		}
 	case 434:
 		yyDollar = yyS[yypt-2 : yypt+1]
@@ -5865,82 +5865,82 @@ yydefault:
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
 	case 435:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2310
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2308
 		{
-			yyVAL.showFilter = nil
+			yyVAL.str = yyDollar[2].tableIdent.v
 		}
 	case 436:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2314
 		{
-			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
+			yyVAL.showFilter = nil
 		}
 	case 437:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2318
 		{
-			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
+			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
 	case 438:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2324
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2322
 		{
-			yyVAL.str = ""
+			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
 	case 439:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2328
 		{
-			yyVAL.str = SessionStr
+			yyVAL.str = ""
 		}
 	case 440:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2332
 		{
-			yyVAL.str = GlobalStr
+			yyVAL.str = SessionStr
 		}
 	case 441:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2338
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2336
 		{
-			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
+			yyVAL.str = GlobalStr
 		}
 	case 442:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2342
 		{
-			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
+			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
 	case 443:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2348
+//line sqlparser/parser.y:2346
 		{
-			yyVAL.statement = &Begin{}
+			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
 	case 444:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2352
 		{
 			yyVAL.statement = &Begin{}
 		}
 	case 445:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2358
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2356
 		{
-			yyVAL.statement = &Commit{}
+			yyVAL.statement = &Begin{}
 		}
 	case 446:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2364
+//line sqlparser/parser.y:2362
 		{
-			yyVAL.statement = &Rollback{}
+			yyVAL.statement = &Commit{}
 		}
 	case 447:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2370
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2368
 		{
-			yyVAL.statement = &OtherRead{}
+			yyVAL.statement = &Rollback{}
 		}
 	case 448:
 		yyDollar = yyS[yypt-2 : yypt+1]
@@ -5958,7 +5958,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2382
 		{
-			yyVAL.statement = &OtherAdmin{}
+			yyVAL.statement = &OtherRead{}
 		}
 	case 451:
 		yyDollar = yyS[yypt-2 : yypt+1]
@@ -5967,251 +5967,251 @@ yydefault:
 			yyVAL.statement = &OtherAdmin{}
 		}
 	case 452:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2390
+		{
+			yyVAL.statement = &OtherAdmin{}
+		}
+	case 453:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2391
+//line sqlparser/parser.y:2395
 		{
 			setAllowComments(yylex, true)
 		}
-	case 453:
+	case 454:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2395
+//line sqlparser/parser.y:2399
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
-	case 454:
+	case 455:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2401
+//line sqlparser/parser.y:2405
 		{
 			yyVAL.bytes2 = nil
 		}
-	case 455:
+	case 456:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2405
+//line sqlparser/parser.y:2409
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
-	case 456:
+	case 457:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2411
+//line sqlparser/parser.y:2415
 		{
 			yyVAL.str = UnionStr
 		}
-	case 457:
+	case 458:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2415
+//line sqlparser/parser.y:2419
 		{
 			yyVAL.str = UnionAllStr
 		}
-	case 458:
+	case 459:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2419
+//line sqlparser/parser.y:2423
 		{
 			yyVAL.str = UnionDistinctStr
 		}
-	case 459:
+	case 460:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2424
+//line sqlparser/parser.y:2428
 		{
 			yyVAL.str = ""
 		}
-	case 460:
+	case 461:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2428
+//line sqlparser/parser.y:2432
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
-	case 461:
+	case 462:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2432
+//line sqlparser/parser.y:2436
 		{
 			yyVAL.str = SQLCacheStr
 		}
-	case 462:
+	case 463:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2437
+//line sqlparser/parser.y:2441
 		{
 			yyVAL.str = ""
 		}
-	case 463:
+	case 464:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2441
+//line sqlparser/parser.y:2445
 		{
 			yyVAL.str = DistinctStr
 		}
-	case 464:
+	case 465:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2446
+//line sqlparser/parser.y:2450
 		{
 			yyVAL.str = ""
 		}
-	case 465:
+	case 466:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2450
+//line sqlparser/parser.y:2454
 		{
 			yyVAL.str = StraightJoinHint
 		}
-	case 466:
+	case 467:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2455
+//line sqlparser/parser.y:2459
 		{
 			yyVAL.selectExprs = nil
 		}
-	case 467:
+	case 468:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2459
+//line sqlparser/parser.y:2463
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
-	case 468:
+	case 469:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2465
+//line sqlparser/parser.y:2469
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
-	case 469:
+	case 470:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2469
+//line sqlparser/parser.y:2473
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
-	case 470:
+	case 471:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2475
+//line sqlparser/parser.y:2479
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
-	case 471:
+	case 472:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2479
+//line sqlparser/parser.y:2483
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
-	case 472:
+	case 473:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2483
+//line sqlparser/parser.y:2487
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
-	case 473:
+	case 474:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2487
+//line sqlparser/parser.y:2491
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
-	case 474:
+	case 475:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2492
+//line sqlparser/parser.y:2496
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
-	case 475:
+	case 476:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2496
+//line sqlparser/parser.y:2500
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
-	case 476:
+	case 477:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2500
+//line sqlparser/parser.y:2504
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
-	case 478:
+	case 479:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2507
+//line sqlparser/parser.y:2511
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 479:
+	case 480:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2512
+//line sqlparser/parser.y:2516
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
-	case 480:
+	case 481:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2516
+//line sqlparser/parser.y:2520
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
-	case 481:
+	case 482:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2522
+//line sqlparser/parser.y:2526
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
-	case 482:
+	case 483:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2526
+//line sqlparser/parser.y:2530
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
-	case 485:
+	case 486:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2536
+//line sqlparser/parser.y:2540
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
-	case 486:
+	case 487:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2540
+//line sqlparser/parser.y:2544
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
-	case 487:
+	case 488:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2544
+//line sqlparser/parser.y:2548
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
-	case 488:
+	case 489:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2550
+//line sqlparser/parser.y:2554
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
-	case 489:
+	case 490:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2554
+//line sqlparser/parser.y:2558
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
-	case 490:
+	case 491:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2560
+//line sqlparser/parser.y:2564
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 491:
+	case 492:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2565
+//line sqlparser/parser.y:2569
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
-	case 492:
+	case 493:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2569
+//line sqlparser/parser.y:2573
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 493:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2575
-		{
-			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
-		}
 	case 494:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2579
 		{
-			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
+			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
 	case 495:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2592
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2583
 		{
-			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
+			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
 	case 496:
 		yyDollar = yyS[yypt-4 : yypt+1]
@@ -6226,91 +6226,91 @@ yydefault:
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
 	case 498:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2604
 		{
-			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
+			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
 	case 499:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2608
+		{
+			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
+		}
+	case 500:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2610
+//line sqlparser/parser.y:2614
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 500:
+	case 501:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2612
+//line sqlparser/parser.y:2616
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
-	case 501:
+	case 502:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2616
+//line sqlparser/parser.y:2620
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 502:
+	case 503:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2618
+//line sqlparser/parser.y:2622
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
-	case 503:
+	case 504:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2622
+//line sqlparser/parser.y:2626
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 504:
+	case 505:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2624
+//line sqlparser/parser.y:2628
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 505:
+	case 506:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2627
+//line sqlparser/parser.y:2631
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 506:
+	case 507:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2629
+//line sqlparser/parser.y:2633
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 507:
+	case 508:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2632
+//line sqlparser/parser.y:2636
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
-	case 508:
+	case 509:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2636
+//line sqlparser/parser.y:2640
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
-	case 509:
+	case 510:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2640
+//line sqlparser/parser.y:2644
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
-	case 511:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2647
-		{
-			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
-		}
 	case 512:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2653
+//line sqlparser/parser.y:2651
 		{
-			yyVAL.str = JoinStr
+			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
 	case 513:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2657
 		{
 			yyVAL.str = JoinStr
@@ -6322,44 +6322,50 @@ yydefault:
 			yyVAL.str = JoinStr
 		}
 	case 515:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2667
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2665
 		{
-			yyVAL.str = StraightJoinStr
+			yyVAL.str = JoinStr
 		}
 	case 516:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2673
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2671
 		{
-			yyVAL.str = LeftJoinStr
+			yyVAL.str = StraightJoinStr
 		}
 	case 517:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2677
 		{
 			yyVAL.str = LeftJoinStr
 		}
 	case 518:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2681
 		{
-			yyVAL.str = RightJoinStr
+			yyVAL.str = LeftJoinStr
 		}
 	case 519:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2685
 		{
 			yyVAL.str = RightJoinStr
 		}
 	case 520:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2691
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2689
 		{
-			yyVAL.str = NaturalJoinStr
+			yyVAL.str = RightJoinStr
 		}
 	case 521:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2695
+		{
+			yyVAL.str = NaturalJoinStr
+		}
+	case 522:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2699
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6367,413 +6373,407 @@ yydefault:
 				yyVAL.str = NaturalRightJoinStr
 			}
 		}
-	case 522:
+	case 523:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2705
+//line sqlparser/parser.y:2709
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
-	case 523:
+	case 524:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2709
+//line sqlparser/parser.y:2713
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
-	case 524:
+	case 525:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2715
+//line sqlparser/parser.y:2719
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
-	case 525:
+	case 526:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2719
+//line sqlparser/parser.y:2723
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
-	case 526:
+	case 527:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2724
+//line sqlparser/parser.y:2728
 		{
 			yyVAL.indexHints = nil
 		}
-	case 527:
+	case 528:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2728
+//line sqlparser/parser.y:2732
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
-	case 528:
+	case 529:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2732
+//line sqlparser/parser.y:2736
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
-	case 529:
+	case 530:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2736
+//line sqlparser/parser.y:2740
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
-	case 530:
+	case 531:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2741
+//line sqlparser/parser.y:2745
 		{
 			yyVAL.expr = nil
 		}
-	case 531:
+	case 532:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2745
+//line sqlparser/parser.y:2749
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 532:
+	case 533:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2750
+//line sqlparser/parser.y:2754
 		{
 			yyVAL.columns = nil
 		}
-	case 533:
+	case 534:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2754
+//line sqlparser/parser.y:2758
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
-	case 534:
+	case 535:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2760
+//line sqlparser/parser.y:2764
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 535:
+	case 536:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2764
+//line sqlparser/parser.y:2768
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 536:
+	case 537:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2768
+//line sqlparser/parser.y:2772
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 537:
+	case 538:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2772
+//line sqlparser/parser.y:2776
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
-	case 538:
+	case 539:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2776
+//line sqlparser/parser.y:2780
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
-	case 539:
+	case 540:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2780
+//line sqlparser/parser.y:2784
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 540:
+	case 541:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2784
+//line sqlparser/parser.y:2788
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
-	case 541:
+	case 542:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2790
+//line sqlparser/parser.y:2794
 		{
 			yyVAL.str = ""
 		}
-	case 542:
+	case 543:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2794
+//line sqlparser/parser.y:2798
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 543:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2800
-		{
-			yyVAL.boolVal = BoolVal(true)
-		}
 	case 544:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2804
 		{
-			yyVAL.boolVal = BoolVal(false)
+			yyVAL.boolVal = BoolVal(true)
 		}
 	case 545:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2810
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2808
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
+			yyVAL.boolVal = BoolVal(false)
 		}
 	case 546:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2814
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
 	case 547:
-		yyDollar = yyS[yypt-4 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2818
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
 	case 548:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2822
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
 	case 549:
-		yyDollar = yyS[yypt-5 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2826
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
 	case 550:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-5 : yypt+1]
 //line sqlparser/parser.y:2830
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
 	case 551:
-		yyDollar = yyS[yypt-4 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2834
 		{
-			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
 	case 552:
-		yyDollar = yyS[yypt-5 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:2838
 		{
-			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
+			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
 	case 553:
-		yyDollar = yyS[yypt-6 : yypt+1]
+		yyDollar = yyS[yypt-5 : yypt+1]
 //line sqlparser/parser.y:2842
 		{
-			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
+			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
 	case 554:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-6 : yypt+1]
 //line sqlparser/parser.y:2846
 		{
-			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
+			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
 	case 555:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2852
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2850
 		{
-			yyVAL.str = IsNullStr
+			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
 	case 556:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2856
 		{
-			yyVAL.str = IsNotNullStr
+			yyVAL.str = IsNullStr
 		}
 	case 557:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2860
 		{
-			yyVAL.str = IsTrueStr
+			yyVAL.str = IsNotNullStr
 		}
 	case 558:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2864
 		{
-			yyVAL.str = IsNotTrueStr
+			yyVAL.str = IsTrueStr
 		}
 	case 559:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2868
 		{
-			yyVAL.str = IsFalseStr
+			yyVAL.str = IsNotTrueStr
 		}
 	case 560:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2872
 		{
-			yyVAL.str = IsNotFalseStr
+			yyVAL.str = IsFalseStr
 		}
 	case 561:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2878
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2876
 		{
-			yyVAL.str = EqualStr
+			yyVAL.str = IsNotFalseStr
 		}
 	case 562:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2882
 		{
-			yyVAL.str = LessThanStr
+			yyVAL.str = EqualStr
 		}
 	case 563:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2886
 		{
-			yyVAL.str = GreaterThanStr
+			yyVAL.str = LessThanStr
 		}
 	case 564:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2890
 		{
-			yyVAL.str = LessEqualStr
+			yyVAL.str = GreaterThanStr
 		}
 	case 565:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2894
 		{
-			yyVAL.str = GreaterEqualStr
+			yyVAL.str = LessEqualStr
 		}
 	case 566:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2898
 		{
-			yyVAL.str = NotEqualStr
+			yyVAL.str = GreaterEqualStr
 		}
 	case 567:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2902
 		{
-			yyVAL.str = NullSafeEqualStr
+			yyVAL.str = NotEqualStr
 		}
 	case 568:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2907
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2906
 		{
-			yyVAL.expr = nil
+			yyVAL.str = NullSafeEqualStr
 		}
 	case 569:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2911
 		{
-			yyVAL.expr = yyDollar[2].expr
+			yyVAL.expr = nil
 		}
 	case 570:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2917
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2915
 		{
-			yyVAL.colTuple = yyDollar[1].valTuple
+			yyVAL.expr = yyDollar[2].expr
 		}
 	case 571:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2921
 		{
-			yyVAL.colTuple = yyDollar[1].subquery
+			yyVAL.colTuple = yyDollar[1].valTuple
 		}
 	case 572:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2925
 		{
-			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
+			yyVAL.colTuple = yyDollar[1].subquery
 		}
 	case 573:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2931
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2929
 		{
-			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
+			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
 	case 574:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2937
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2935
 		{
-			yyVAL.exprs = Exprs{yyDollar[1].expr}
+			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
 	case 575:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2941
 		{
-			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
+			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
 	case 576:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2947
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2945
 		{
-			yyVAL.expr = yyDollar[1].expr
+			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 577:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2951
 		{
-			yyVAL.expr = yyDollar[1].boolVal
+			yyVAL.expr = yyDollar[1].expr
 		}
 	case 578:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2955
 		{
-			yyVAL.expr = yyDollar[1].colName
+			yyVAL.expr = yyDollar[1].boolVal
 		}
 	case 579:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2959
 		{
-			yyVAL.expr = yyDollar[1].expr
+			yyVAL.expr = yyDollar[1].colName
 		}
 	case 580:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2963
 		{
-			yyVAL.expr = yyDollar[1].subquery
+			yyVAL.expr = yyDollar[1].expr
 		}
 	case 581:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:2967
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
+			yyVAL.expr = yyDollar[1].subquery
 		}
 	case 582:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2971
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
 	case 583:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2975
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
 	case 584:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2979
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
 	case 585:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2983
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
 	case 586:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2987
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
 	case 587:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2991
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
 	case 588:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2995
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
 	case 589:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:2999
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
 	case 590:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -6785,47 +6785,53 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3007
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
 	case 592:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3011
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
 	case 593:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3015
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
 	case 594:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3019
 		{
-			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
 	case 595:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3023
 		{
-			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
+			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
 	case 596:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3027
 		{
-			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
+			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
 	case 597:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3031
 		{
-			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
+			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
 	case 598:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3035
+		{
+			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
+		}
+	case 599:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:3039
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6833,9 +6839,9 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UPlusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 599:
+	case 600:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3043
+//line sqlparser/parser.y:3047
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6849,21 +6855,21 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UMinusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 600:
+	case 601:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3057
+//line sqlparser/parser.y:3061
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
-	case 601:
+	case 602:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3061
+//line sqlparser/parser.y:3065
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
-	case 602:
+	case 603:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3065
+//line sqlparser/parser.y:3069
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6871,47 +6877,41 @@ yydefault:
 			// will be non-trivial because of grammar conflicts.
 			yyVAL.expr = &IntervalExpr{Expr: yyDollar[2].expr, Unit: yyDollar[3].colIdent.String()}
 		}
-	case 603:
+	case 604:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3073
+//line sqlparser/parser.y:3077
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType}
 		}
-	case 608:
+	case 609:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3087
+//line sqlparser/parser.y:3091
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
-	case 609:
+	case 610:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3091
+//line sqlparser/parser.y:3095
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
-	case 610:
+	case 611:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3095
+//line sqlparser/parser.y:3099
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
-	case 611:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3105
-		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
-		}
 	case 612:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:3109
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 613:
-		yyDollar = yyS[yypt-6 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:3113
 		{
-			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 614:
 		yyDollar = yyS[yypt-6 : yypt+1]
@@ -6923,19 +6923,19 @@ yydefault:
 		yyDollar = yyS[yypt-6 : yypt+1]
 //line sqlparser/parser.y:3121
 		{
-			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
+			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
 	case 616:
 		yyDollar = yyS[yypt-6 : yypt+1]
 //line sqlparser/parser.y:3125
 		{
-			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
+			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
 	case 617:
-		yyDollar = yyS[yypt-8 : yypt+1]
+		yyDollar = yyS[yypt-6 : yypt+1]
 //line sqlparser/parser.y:3129
 		{
-			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
+			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
 	case 618:
 		yyDollar = yyS[yypt-8 : yypt+1]
@@ -6944,16 +6944,16 @@ yydefault:
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 619:
-		yyDollar = yyS[yypt-6 : yypt+1]
+		yyDollar = yyS[yypt-8 : yypt+1]
 //line sqlparser/parser.y:3137
 		{
-			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
+			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 620:
-		yyDollar = yyS[yypt-8 : yypt+1]
+		yyDollar = yyS[yypt-6 : yypt+1]
 //line sqlparser/parser.y:3141
 		{
-			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
+			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
 	case 621:
 		yyDollar = yyS[yypt-8 : yypt+1]
@@ -6962,142 +6962,142 @@ yydefault:
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 622:
-		yyDollar = yyS[yypt-9 : yypt+1]
+		yyDollar = yyS[yypt-8 : yypt+1]
 //line sqlparser/parser.y:3149
 		{
-			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
+			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
 	case 623:
-		yyDollar = yyS[yypt-7 : yypt+1]
+		yyDollar = yyS[yypt-9 : yypt+1]
 //line sqlparser/parser.y:3153
 		{
-			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
+			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
 	case 624:
-		yyDollar = yyS[yypt-5 : yypt+1]
+		yyDollar = yyS[yypt-7 : yypt+1]
 //line sqlparser/parser.y:3157
 		{
-			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
+			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
 	case 625:
-		yyDollar = yyS[yypt-4 : yypt+1]
+		yyDollar = yyS[yypt-5 : yypt+1]
 //line sqlparser/parser.y:3161
 		{
-			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
+			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
 	case 626:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3171
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:3165
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
+			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
 	case 627:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3175
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
 	case 628:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3179
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
 	case 629:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3183
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
 	case 630:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3188
+//line sqlparser/parser.y:3187
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
 	case 631:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3193
+//line sqlparser/parser.y:3192
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
 	case 632:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3198
+//line sqlparser/parser.y:3197
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
 	case 633:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3203
+//line sqlparser/parser.y:3202
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
 	case 634:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3207
 		{
-			yyVAL.expr = &ConvertExpr{Type: yyDollar[2].convertType}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
 		}
-	case 637:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3221
+	case 635:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:3211
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
+			yyVAL.expr = &ConvertExpr{Type: yyDollar[2].convertType}
 		}
 	case 638:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:3225
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 639:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:3229
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 640:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:3233
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 641:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3239
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:3237
 		{
-			yyVAL.str = ""
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
 	case 642:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:3243
 		{
-			yyVAL.str = BooleanModeStr
+			yyVAL.str = ""
 		}
 	case 643:
-		yyDollar = yyS[yypt-4 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3247
 		{
-			yyVAL.str = NaturalLanguageModeStr
+			yyVAL.str = BooleanModeStr
 		}
 	case 644:
-		yyDollar = yyS[yypt-7 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:3251
 		{
-			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
+			yyVAL.str = NaturalLanguageModeStr
 		}
 	case 645:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-7 : yypt+1]
 //line sqlparser/parser.y:3255
 		{
-			yyVAL.str = QueryExpansionStr
+			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
 	case 646:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3261
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:3259
 		{
-			yyVAL.str = string(yyDollar[1].bytes)
+			yyVAL.str = QueryExpansionStr
 		}
 	case 647:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7106,48 +7106,48 @@ yydefault:
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 648:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3271
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3269
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 649:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3275
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 650:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3279
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
 	case 651:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3283
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
 	case 652:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3287
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 653:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3291
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
-			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
-			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 654:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3297
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:3295
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
+			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
 	case 655:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7156,19 +7156,19 @@ yydefault:
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 656:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3305
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 657:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3309
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 658:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3313
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
@@ -7177,37 +7177,37 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3317
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 660:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3321
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
 	case 661:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3325
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 662:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3331
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:3329
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 663:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3335
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 664:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3339
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
 	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7219,7 +7219,7 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3347
 		{
-			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
 	case 667:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7231,131 +7231,137 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3355
 		{
-			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
 	case 669:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3359
+		{
+			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
+		}
+	case 670:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3360
+//line sqlparser/parser.y:3364
 		{
 			yyVAL.expr = nil
 		}
-	case 670:
+	case 671:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3364
+//line sqlparser/parser.y:3368
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 671:
+	case 672:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3369
+//line sqlparser/parser.y:3373
 		{
 			yyVAL.str = string("")
 		}
-	case 672:
+	case 673:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3373
+//line sqlparser/parser.y:3377
 		{
 			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
 		}
-	case 673:
+	case 674:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3379
+//line sqlparser/parser.y:3383
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
-	case 674:
+	case 675:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3383
+//line sqlparser/parser.y:3387
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
-	case 675:
+	case 676:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3389
+//line sqlparser/parser.y:3393
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
-	case 676:
+	case 677:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3394
+//line sqlparser/parser.y:3398
 		{
 			yyVAL.expr = nil
 		}
-	case 677:
+	case 678:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3398
+//line sqlparser/parser.y:3402
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 678:
+	case 679:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3404
+//line sqlparser/parser.y:3408
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
-	case 679:
+	case 680:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3408
+//line sqlparser/parser.y:3412
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
-	case 680:
+	case 681:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3412
+//line sqlparser/parser.y:3416
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
-	case 681:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3418
-		{
-			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
-		}
 	case 682:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3422
 		{
-			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
+			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
 	case 683:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3426
 		{
-			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
+			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
 	case 684:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3430
 		{
-			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
+			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
 	case 685:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3434
 		{
-			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
+			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
 	case 686:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3438
 		{
-			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
+			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
 	case 687:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3442
 		{
-			yyVAL.expr = NewValArg(yyDollar[1].bytes)
+			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
 	case 688:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3446
 		{
-			yyVAL.expr = &NullVal{}
+			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
 	case 689:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3452
+//line sqlparser/parser.y:3450
+		{
+			yyVAL.expr = &NullVal{}
+		}
+	case 690:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3456
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7364,239 +7370,239 @@ yydefault:
 			}
 			yyVAL.expr = NewIntVal([]byte("1"))
 		}
-	case 690:
+	case 691:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3461
+//line sqlparser/parser.y:3465
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 691:
+	case 692:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3465
+//line sqlparser/parser.y:3469
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 692:
+	case 693:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3470
+//line sqlparser/parser.y:3474
 		{
 			yyVAL.exprs = nil
 		}
-	case 693:
+	case 694:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3474
+//line sqlparser/parser.y:3478
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
-	case 694:
+	case 695:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3479
+//line sqlparser/parser.y:3483
 		{
 			yyVAL.expr = nil
 		}
-	case 695:
+	case 696:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3483
+//line sqlparser/parser.y:3487
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 696:
+	case 697:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3488
+//line sqlparser/parser.y:3492
 		{
 			yyVAL.orderBy = nil
 		}
-	case 697:
+	case 698:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3492
+//line sqlparser/parser.y:3496
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
-	case 698:
+	case 699:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3498
+//line sqlparser/parser.y:3502
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
-	case 699:
+	case 700:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3502
+//line sqlparser/parser.y:3506
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
-	case 700:
+	case 701:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3508
+//line sqlparser/parser.y:3512
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
-	case 701:
+	case 702:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3513
+//line sqlparser/parser.y:3517
 		{
 			yyVAL.str = AscScr
 		}
-	case 702:
+	case 703:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3517
+//line sqlparser/parser.y:3521
 		{
 			yyVAL.str = AscScr
 		}
-	case 703:
+	case 704:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3521
+//line sqlparser/parser.y:3525
 		{
 			yyVAL.str = DescScr
 		}
-	case 704:
+	case 705:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3526
+//line sqlparser/parser.y:3530
 		{
 			yyVAL.limit = nil
 		}
-	case 705:
+	case 706:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3530
+//line sqlparser/parser.y:3534
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
-	case 706:
+	case 707:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3534
+//line sqlparser/parser.y:3538
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
-	case 707:
+	case 708:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3538
+//line sqlparser/parser.y:3542
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
-	case 708:
+	case 709:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3543
+//line sqlparser/parser.y:3547
 		{
 			yyVAL.str = ""
 		}
-	case 709:
+	case 710:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3547
+//line sqlparser/parser.y:3551
 		{
 			yyVAL.str = ForUpdateStr
 		}
-	case 710:
+	case 711:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3551
+//line sqlparser/parser.y:3555
 		{
 			yyVAL.str = ShareModeStr
 		}
-	case 711:
+	case 712:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3564
+//line sqlparser/parser.y:3568
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
-	case 712:
+	case 713:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3568
+//line sqlparser/parser.y:3572
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
-	case 713:
+	case 714:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3572
+//line sqlparser/parser.y:3576
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
-	case 714:
+	case 715:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3577
+//line sqlparser/parser.y:3581
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
-	case 715:
+	case 716:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3581
+//line sqlparser/parser.y:3585
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
-	case 716:
+	case 717:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3585
+//line sqlparser/parser.y:3589
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
-	case 717:
+	case 718:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3592
+//line sqlparser/parser.y:3596
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 718:
+	case 719:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3596
+//line sqlparser/parser.y:3600
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
-	case 719:
+	case 720:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3600
+//line sqlparser/parser.y:3604
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 720:
+	case 721:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3604
+//line sqlparser/parser.y:3608
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
-	case 721:
+	case 722:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3609
+//line sqlparser/parser.y:3613
 		{
 			yyVAL.updateExprs = nil
 		}
-	case 722:
+	case 723:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3613
+//line sqlparser/parser.y:3617
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
-	case 723:
+	case 724:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3619
+//line sqlparser/parser.y:3623
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
-	case 724:
+	case 725:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3623
+//line sqlparser/parser.y:3627
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
-	case 725:
+	case 726:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3629
+//line sqlparser/parser.y:3633
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
-	case 726:
+	case 727:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3633
+//line sqlparser/parser.y:3637
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
-	case 727:
+	case 728:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3639
+//line sqlparser/parser.y:3643
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
-	case 728:
+	case 729:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3645
+//line sqlparser/parser.y:3649
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7604,195 +7610,189 @@ yydefault:
 				yyVAL.expr = yyDollar[1].valTuple
 			}
 		}
-	case 729:
+	case 730:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3655
+//line sqlparser/parser.y:3659
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
-	case 730:
+	case 731:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3659
+//line sqlparser/parser.y:3663
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
-	case 731:
+	case 732:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3665
+//line sqlparser/parser.y:3669
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
-	case 732:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3671
-		{
-			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
-		}
 	case 733:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3675
 		{
-			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
+			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
 	case 734:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3681
+//line sqlparser/parser.y:3679
 		{
-			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
+			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
 	case 735:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3685
 		{
-			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
+			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
 	case 736:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3689
 		{
-			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
+			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
 	case 737:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3693
+		{
+			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
+		}
+	case 738:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:3697
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
-	case 739:
+	case 740:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3700
+//line sqlparser/parser.y:3704
 		{
 			yyVAL.bytes = []byte("charset")
 		}
-	case 741:
+	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3707
+//line sqlparser/parser.y:3711
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
-	case 742:
+	case 743:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3711
+//line sqlparser/parser.y:3715
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 743:
+	case 744:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3715
+//line sqlparser/parser.y:3719
 		{
 			yyVAL.expr = &Default{}
 		}
-	case 746:
+	case 747:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3724
+//line sqlparser/parser.y:3728
 		{
 			yyVAL.byt = 0
 		}
-	case 747:
+	case 748:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3726
+//line sqlparser/parser.y:3730
 		{
 			yyVAL.byt = 1
 		}
-	case 748:
+	case 749:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3729
+//line sqlparser/parser.y:3733
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 749:
+	case 750:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3731
+//line sqlparser/parser.y:3735
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 750:
+	case 751:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3734
+//line sqlparser/parser.y:3738
 		{
 			yyVAL.str = ""
 		}
-	case 751:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3736
-		{
-			yyVAL.str = IgnoreStr
-		}
 	case 752:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3740
 		{
-			yyVAL.empty = struct{}{}
+			yyVAL.str = IgnoreStr
 		}
 	case 753:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3742
+//line sqlparser/parser.y:3744
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 754:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3744
+//line sqlparser/parser.y:3746
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 755:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3746
+//line sqlparser/parser.y:3748
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 756:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3748
+//line sqlparser/parser.y:3750
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 757:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3750
+//line sqlparser/parser.y:3752
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 758:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3752
+//line sqlparser/parser.y:3754
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 759:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3754
+//line sqlparser/parser.y:3756
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 760:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3756
+//line sqlparser/parser.y:3758
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 761:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3758
+//line sqlparser/parser.y:3760
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 762:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3761
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3762
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 763:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3763
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:3765
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 764:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3765
+//line sqlparser/parser.y:3767
 		{
 			yyVAL.empty = struct{}{}
 		}
@@ -7804,7 +7804,7 @@ yydefault:
 		}
 	case 766:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3771
+//line sqlparser/parser.y:3773
 		{
 			yyVAL.empty = struct{}{}
 		}
@@ -7812,7 +7812,7 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:3775
 		{
-			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
+			yyVAL.empty = struct{}{}
 		}
 	case 768:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7820,17 +7820,17 @@ yydefault:
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 770:
+	case 769:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3786
+//line sqlparser/parser.y:3783
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 771:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3792
+//line sqlparser/parser.y:3790
 		{
-			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
+			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 772:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7838,41 +7838,41 @@ yydefault:
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 774:
+	case 773:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3800
+		{
+			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
+		}
+	case 775:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3803
+//line sqlparser/parser.y:3807
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 1015:
+	case 1016:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4069
+//line sqlparser/parser.y:4073
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
 				return 1
 			}
 		}
-	case 1016:
+	case 1017:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4078
+//line sqlparser/parser.y:4082
 		{
 			decNesting(yylex)
 		}
-	case 1017:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4083
-		{
-			forceEOF(yylex)
-		}
 	case 1018:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4088
+//line sqlparser/parser.y:4087
 		{
 			forceEOF(yylex)
 		}
 	case 1019:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:4092
 		{
 			forceEOF(yylex)
@@ -7883,6 +7883,12 @@ yydefault:
 		{
 			forceEOF(yylex)
 		}
+	case 1021:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:4100
+		{
+			forceEOF(yylex)
+		}
 	}
 	goto yystack /* stack new state and value */
 }
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b073483..039e798 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1863,6 +1863,10 @@ reference_option:
   {
     $$ = NewColIdent("NO ACTION")
   }
+| SET DEFAULT
+  {
+    $$ = NewColIdent("SET DEFAULT")
+  }
 
 primary_key_definition:
   CONSTRAINT sql_id PRIMARY KEY clustered_opt '(' index_column_list ')' index_option_opt index_partition_opt
-- 
2.43.0


From c75d7940588e075cb0618b0e151722f625123145 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 75/84] fix: keep the index of a foreign key that has both a
 constraint name and an index name

---
 schema/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ce80727..b440b4b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1766,9 +1766,10 @@ func convertForeignKeysToIndexNames(foreignKeys []ForeignKey) []string {
 	for _, foreignKey := range foreignKeys {
 		if len(foreignKey.indexName) > 0 {
 			indexNames = append(indexNames, foreignKey.indexName)
-		} else if len(foreignKey.constraintName) > 0 {
+		}
+		if len(foreignKey.constraintName) > 0 { // MySQL prefers this one
 			indexNames = append(indexNames, foreignKey.constraintName)
-		} // unexpected to reach else (really?)
+		}
 	}
 	return indexNames
 }
-- 
2.43.0


From 0cb1628edc9eb283cc66a33ed74703467870afa4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 76/84] fix: export PostgreSQL's foreign keys of several
 columns, and those with the same name, as they are

---
 adapter/postgres/postgres.go | 45 ++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index a8cfdb5..0ca4a40 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -337,28 +337,25 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 	return constraintName, columnNames, nil
 }
 
-// refs: https://gist.github.com/PickledDragon/dd41f4e72b428175354d
+// Not using information_schema because foreign keys of several tables can have the same name,
+// and it doesn't tell which columns of the referenced table are for which columns of the table.
 func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
 	const query = `SELECT
-	tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name,
-	ccu.table_schema AS foreign_table_schema,
-	ccu.table_name AS foreign_table_name,
-	ccu.column_name AS foreign_column_name,
-	rc.update_rule AS foreign_update_rule,
-	rc.delete_rule AS foreign_delete_rule
+	n.nspname AS table_schema, con.conname AS constraint_name, c.relname AS table_name, a.attname AS column_name,
+	fn.nspname AS foreign_table_schema,
+	fc.relname AS foreign_table_name,
+	fa.attname AS foreign_column_name,
+	CASE con.confupdtype WHEN 'r' THEN 'RESTRICT' WHEN 'c' THEN 'CASCADE' WHEN 'n' THEN 'SET NULL' WHEN 'd' THEN 'SET DEFAULT' ELSE 'NO ACTION' END AS foreign_update_rule,
+	CASE con.confdeltype WHEN 'r' THEN 'RESTRICT' WHEN 'c' THEN 'CASCADE' WHEN 'n' THEN 'SET NULL' WHEN 'd' THEN 'SET DEFAULT' ELSE 'NO ACTION' END AS foreign_delete_rule
 FROM
-	information_schema.table_constraints AS tc
-	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
-		AND tc.table_schema = kcu.table_schema
-		AND tc.table_name = kcu.table_name
-	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
-		AND tc.constraint_schema = ccu.constraint_schema
-	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
-		AND tc.constraint_schema = rc.constraint_schema
-WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
+	pg_constraint con
+	JOIN pg_class c ON c.oid = con.conrelid
+	JOIN pg_namespace n ON n.oid = c.relnamespace
+	JOIN pg_class fc ON fc.oid = con.confrelid
+	JOIN pg_namespace fn ON fn.oid = fc.relnamespace
+	JOIN pg_attribute a ON a.attrelid = con.conrelid AND a.attnum = ANY (con.conkey)
+	JOIN pg_attribute fa ON fa.attrelid = con.confrelid AND fa.attnum = con.confkey[array_position(con.conkey, a.attnum)]
+WHERE con.contype = 'f' AND n.nspname = $1 AND c.relname = $2 ORDER BY con.conname, array_position(con.conkey, a.attnum)`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
@@ -367,15 +364,23 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 	defer rows.Close()
 
 	defs := make([]string, 0)
+	var lastName, columnNames, foreignColumnNames string
 	for rows.Next() {
 		var tableSchema, constraintName, tableName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName, &foreignTableSchema, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule)
 		if err != nil {
 			return nil, err
 		}
+		if constraintName == lastName { // another column of the same foreign key
+			columnNames += ", " + quoteName(columnName)
+			foreignColumnNames += ", " + quoteName(foreignColumnName)
+			defs = defs[:len(defs)-1]
+		} else {
+			lastName, columnNames, foreignColumnNames = constraintName, quoteName(columnName), quoteName(foreignColumnName)
+		}
 		def := fmt.Sprintf(
 			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			quoteName(tableSchema), quoteName(tableName), quoteName(constraintName), quoteName(columnName), quoteName(foreignTableSchema), quoteName(foreignTableName), quoteName(foreignColumnName), foreignUpdateRule, foreignDeleteRule,
+			quoteName(tableSchema), quoteName(tableName), quoteName(constraintName), columnNames, quoteName(foreignTableSchema), quoteName(foreignTableName), foreignColumnNames, foreignUpdateRule, foreignDeleteRule,
 		)
 		defs = append(defs, def)
 	}
-- 
2.43.0


From 5873e283ac4c2540fc790879e1d58330b0972782 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 77/84] fix: export SQL Server's foreign keys of several
 columns as they are

---
 adapter/mssql/mssql.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 378ef7a..1fb2dc6 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -404,7 +404,7 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	f.delete_referential_action_desc,
 	f.is_not_for_replication
 FROM sys.foreign_keys f INNER JOIN sys.foreign_key_columns fc ON f.OBJECT_ID = fc.constraint_object_id
-WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]') ORDER BY f.object_id, fc.constraint_column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -413,6 +413,7 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	defer rows.Close()
 
 	defs := make([]string, 0)
+	var lastName, columnNames, foreignColumnNames string
 	for rows.Next() {
 		var constraintName, columnName, foreignSchemaName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
@@ -422,7 +423,14 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s].[%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignSchemaName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
+		if constraintName == lastName { // another column of the same foreign key
+			columnNames += fmt.Sprintf(", [%s]", columnName)
+			foreignColumnNames += fmt.Sprintf(", [%s]", foreignColumnName)
+			defs = defs[:len(defs)-1]
+		} else {
+			lastName, columnNames, foreignColumnNames = constraintName, fmt.Sprintf("[%s]", columnName), fmt.Sprintf("[%s]", foreignColumnName)
+		}
+		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY (%s) REFERENCES [%s].[%s] (%s) ON UPDATE %s ON DELETE %s", constraintName, columnNames, foreignSchemaName, foreignTableName, foreignColumnNames, foreignUpdateRule, foreignDeleteRule)
 		if notForReplication {
 			def += " NOT FOR REPLICATION"
 		}
-- 
2.43.0


From 28cf4e137d6edd28261d81155d7a4b07ba983db6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 78/84] fix: change the columns and the table of a foreign key
 in every database

---
 schema/generator.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index b440b4b..43b3be3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1660,14 +1660,24 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	if g.mode == GeneratorModeMysql { // TODO: those of multiple columns in the other databases
-		if !reflect.DeepEqual(foreignKeyA.indexColumns, foreignKeyB.indexColumns) ||
-			!reflect.DeepEqual(foreignKeyA.referenceColumns, foreignKeyB.referenceColumns) ||
-			foreignKeyA.referenceName != foreignKeyB.referenceName {
+	if !areSameColumnNames(foreignKeyA.indexColumns, foreignKeyB.indexColumns) ||
+		!areSameColumnNames(foreignKeyA.referenceColumns, foreignKeyB.referenceColumns) ||
+		!strings.EqualFold(foreignKeyA.referenceName, foreignKeyB.referenceName) {
+		return false
+	}
+	// TODO: check index
+	return true
+}
+
+func areSameColumnNames(columnsA []string, columnsB []string) bool {
+	if len(columnsA) != len(columnsB) {
+		return false
+	}
+	for i := range columnsA {
+		if !strings.EqualFold(columnsA[i], columnsB[i]) {
 			return false
 		}
 	}
-	// TODO: check index
 	return true
 }
 
-- 
2.43.0


From e6a3ffb2e3180cb42452f4302f8b3fc377307e0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 79/84] fix: add and remove UNIQUE of PostgreSQL's columns

---
 schema/generator.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 43b3be3..5d8e25d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -407,6 +407,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// UNIQUE
+				if desiredColumn.keyOption.isUnique() && !currentColumn.keyOption.isUnique() && findIndexByName(currentTable.indexes, uniqueConstraintName(desired.table, desiredColumn.name)) == nil {
+					ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s UNIQUE (%s)", g.escapeTableName(desired.table.name), g.escapeSQLName(uniqueConstraintName(desired.table, desiredColumn.name)), g.escapeSQLName(desiredColumn.name))
+					ddls = append(ddls, ddl)
+				}
+
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
@@ -823,7 +829,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	} else if currentIndex.unique {
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
-			if column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
+			if column.name == currentIndex.columns[0].column && column.keyOption.isUnique() && g.isIndexOfUniqueColumn(currentTable, currentIndex) {
 				uniqueKeyColumn = &column
 				break
 			}
@@ -831,7 +837,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 		if uniqueKeyColumn == nil {
 			// No unique column. Drop unique key index.
-			ddls = append(ddls, g.generateDropIndex(currentTable.name, currentIndex.name))
+			ddls = append(ddls, g.generateDropUniqueIndex(currentTable, currentIndex))
 		}
 	} else {
 		ddls = append(ddls, g.generateDropIndex(currentTable.name, currentIndex.name))
@@ -840,6 +846,35 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	return ddls, nil
 }
 
+// Whether the unique index can be the one of a UNIQUE column
+func (g *Generator) isIndexOfUniqueColumn(table Table, index Index) bool {
+	if len(index.columns) != 1 {
+		return false
+	}
+	if g.mode != GeneratorModePostgres {
+		return true
+	}
+	name := uniqueConstraintName(table, index.columns[0].column)
+	column := findColumnByName(table.columns, index.columns[0].column)
+	return index.name == name || (column != nil && column.keyOption.isUnique() && findIndexByName(table.indexes, name) == nil)
+}
+
+// PostgreSQL doesn't drop an index which belongs to the UNIQUE constraint of a column.
+func (g *Generator) generateDropUniqueIndex(table Table, index Index) string {
+	if g.mode == GeneratorModePostgres && len(index.columns) == 1 {
+		column := findColumnByName(table.columns, index.columns[0].column)
+		if column != nil && column.keyOption.isUnique() && index.name == uniqueConstraintName(table, column.name) {
+			return fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(table.name), g.escapeSQLName(index.name))
+		}
+	}
+	return g.generateDropIndex(table.name, index.name)
+}
+
+// The name PostgreSQL gives to the constraint of a UNIQUE column
+func uniqueConstraintName(table Table, columnName string) string {
+	return fmt.Sprintf("%s_%s_key", tableNameWithoutSchema(table.name), columnName)
+}
+
 func generateDataType(column Column) string {
 	suffix := ""
 	if column.timezone {
-- 
2.43.0


From e9ab5e7da51be472276af5a1ff500d1ad380647e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 80/84] fix: export UNIQUE of PostgreSQL's columns only once

---
 adapter/postgres/postgres.go | 16 +++++++++++++---
 schema/generator.go          | 27 +++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 0ca4a40..64b1b0b 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -107,7 +107,7 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	indexDefs, err := d.getIndexDefs(table, pkeyName)
+	indexDefs, err := d.getIndexDefs(table, pkeyName, cols)
 	if err != nil {
 		return "", err
 	}
@@ -223,7 +223,7 @@ FROM pg_attribute f
 	JOIN pg_class c ON c.oid = f.attrelid JOIN pg_type t ON t.oid = f.atttypid
 	LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = f.attnum
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
-	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
+	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u' AND array_length(p.conkey, 1) = 1
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
 	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
@@ -277,7 +277,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	return cols, nil
 }
 
-func (d *PostgresDatabase) getIndexDefs(table string, pkeyName string) ([]string, error) {
+func (d *PostgresDatabase) getIndexDefs(table string, pkeyName string, columns []column) ([]string, error) {
 	const query = "SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2"
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -286,6 +286,13 @@ func (d *PostgresDatabase) getIndexDefs(table string, pkeyName string) ([]string
 	}
 	defer rows.Close()
 
+	uniqueNames := map[string]bool{} // UNIQUE of the columns is dumped already
+	for _, column := range columns {
+		if column.IsUnique {
+			uniqueNames[fmt.Sprintf("%s_%s_key", table, column.Name)] = true
+		}
+	}
+
 	indexes := make([]string, 0)
 	for rows.Next() {
 		var indexName, indexdef string
@@ -296,6 +303,9 @@ func (d *PostgresDatabase) getIndexDefs(table string, pkeyName string) ([]string
 		if indexName == pkeyName { // "" if there is no primary key
 			continue
 		}
+		if uniqueNames[indexName] {
+			continue
+		}
 		indexes = append(indexes, indexdef)
 	}
 	if err := rows.Err(); err != nil {
diff --git a/schema/generator.go b/schema/generator.go
index 5d8e25d..27d2a80 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -72,6 +72,12 @@ func GenerateIdempotentDDLs(mode GeneratorMode, desiredSQL string, currentSQL st
 		return nil, err
 	}
 
+	if mode == GeneratorModePostgres {
+		for _, table := range tables {
+			addIndexesOfUniqueColumns(table)
+		}
+	}
+
 	views := convertDDLsToViews(currentDDLs)
 	triggers := convertDDLsToTriggers(currentDDLs)
 
@@ -859,6 +865,27 @@ func (g *Generator) isIndexOfUniqueColumn(table Table, index Index) bool {
 	return index.name == name || (column != nil && column.keyOption.isUnique() && findIndexByName(table.indexes, name) == nil)
 }
 
+// PostgreSQL has an index for each UNIQUE column, which isn't dumped if it has the usual name.
+func addIndexesOfUniqueColumns(table *Table) {
+	for _, column := range table.columns {
+		if !column.keyOption.isUnique() {
+			continue
+		}
+		found := false
+		for _, index := range table.indexes {
+			found = found || (index.unique && len(index.columns) == 1 && index.columns[0].column == column.name)
+		}
+		if !found {
+			table.indexes = append(table.indexes, Index{
+				name:      uniqueConstraintName(*table, column.name),
+				indexType: "UNIQUE",
+				columns:   []IndexColumn{{column: column.name}},
+				unique:    true,
+			})
+		}
+	}
+}
+
 // PostgreSQL doesn't drop an index which belongs to the UNIQUE constraint of a column.
 func (g *Generator) generateDropUniqueIndex(table Table, index Index) string {
 	if g.mode == GeneratorModePostgres && len(index.columns) == 1 {
-- 
2.43.0


From 4d629dfdd0a743fc87c549b0d28ad1cf549ab659 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:51:31 +0000
Subject: [PATCH 81/84] fix: read a stream of statements in the mode in which a
 string is read

NewTokenizer left the mode unset, which is none of the modes: in a stream,
"x" was a name and 'it\'s' ended early, unlike in Parse.
---
 sqlparser/token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index 3299a22..d597eff 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -82,6 +82,7 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 	return &Tokenizer{
 		InStream: r,
 		buf:      make([]byte, defaultBufSize),
+		mode:     ParserModeMysql,
 	}
 }
 
-- 
2.43.0


From 2e99e5d92d4d087e9816a73b7065be0faf64a054 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 82/84] fix: add ZEROFILL to a column and notice its change

---
 schema/ast.go       | 2 +-
 schema/generator.go | 4 ++++
 schema/parser.go    | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/schema/ast.go b/schema/ast.go
index 3a04b36..338494e 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -53,6 +53,7 @@ type Column struct {
 	position       int
 	typeName       string
 	unsigned       bool
+	zerofill       bool
 	notNull        *bool
 	autoIncrement  bool
 	array          bool
@@ -73,7 +74,6 @@ type Column struct {
 	comment        *Value // for MySQL
 	defaultCharset string // for MySQL, of the table
 	// TODO: keyopt
-	// XXX: zerofill?
 }
 
 type Index struct {
diff --git a/schema/generator.go b/schema/generator.go
index 27d2a80..06409c2 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -935,6 +935,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	if column.unsigned {
 		definition += "UNSIGNED "
 	}
+	if column.zerofill {
+		definition += "ZEROFILL "
+	}
 
 	// [CHARACTER SET] and [COLLATE] should be placed before [NOT NULL | NULL] on MySQL
 	if column.charset != "" {
@@ -1461,6 +1464,7 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 	// Not examining AUTO_INCREMENT and UNIQUE KEY because it'll be added in a later stage
 	return g.haveSameDataType(current, desired) &&
 		(current.unsigned == desired.unsigned) &&
+		(current.zerofill == desired.zerofill) &&
 		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
 		(current.check == desired.check) &&
diff --git a/schema/parser.go b/schema/parser.go
index 413be67..5603995 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -131,7 +131,8 @@ func parseTable(mode GeneratorMode, ddl string, stmt *sqlparser.DDL) (Table, err
 			name:          parsedCol.Name.String(),
 			position:      i,
 			typeName:      parsedCol.Type.Type,
-			unsigned:      castBool(parsedCol.Type.Unsigned),
+			unsigned:      castBool(parsedCol.Type.Unsigned) || castBool(parsedCol.Type.Zerofill), // ZEROFILL implies UNSIGNED
+			zerofill:      castBool(parsedCol.Type.Zerofill),
 			notNull:       castBoolPtr(parsedCol.Type.NotNull),
 			autoIncrement: castBool(parsedCol.Type.Autoincrement),
 			array:         castBool(parsedCol.Type.Array),
-- 
2.43.0


From 5a14f2e134537ab45b266ae696e9f8acd67881fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:22 +0000
Subject: [PATCH 83/84] fix: change a column that loses AUTO_INCREMENT only
 once

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 06409c2..7a97383 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -281,6 +281,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		}
 	}
 
+	// Names of columns that have got their desired definition, without AUTO_INCREMENT if it's new. MySQL only.
+	changedColumns := map[string]bool{}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
@@ -339,6 +342,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddl += after
 					}
 					ddls = append(ddls, ddl)
+					changedColumns[currentColumn.name] = true
 				}
 
 				// Add UNIQUE KEY. TODO: Probably it should be just normalized to an index after the parser phase.
@@ -487,7 +491,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	if g.mode == GeneratorModeMysql {
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
-			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
+			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) && !changedColumns[currentColumn.name] {
 				column := currentColumn
 				if desiredColumn != nil {
 					column = *desiredColumn // keep other changes of the column made above
-- 
2.43.0


From 7b70ae9bab85576501e27c1b671425a5e87bdde1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:11:37 +0000
Subject: [PATCH 84/84] fix: cut long names of PostgreSQL's constraints as the
 server does

---
 adapter/postgres/postgres.go |  4 ++--
 schema/generator.go          |  6 +++---
 sqlparser/constraint_name.go | 22 ++++++++++++++++++++++
 3 files changed, 27 insertions(+), 5 deletions(-)
 create mode 100644 sqlparser/constraint_name.go

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 64b1b0b..372b424 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -153,7 +153,7 @@ func buildDumpTableDDL(table string, columns []column, pkeyName string, pkeyCols
 	}
 	if len(pkeyCols) > 0 {
 		fmt.Fprint(&queryBuilder, ",\n"+indent)
-		if pkeyName != name+"_pkey" {
+		if pkeyName != sqlparser.PostgresConstraintName(name, "", "pkey") {
 			fmt.Fprintf(&queryBuilder, "CONSTRAINT %s ", quoteName(pkeyName))
 		}
 		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (\"%s\")", strings.Join(pkeyCols, "\", \""))
@@ -289,7 +289,7 @@ func (d *PostgresDatabase) getIndexDefs(table string, pkeyName string, columns [
 	uniqueNames := map[string]bool{} // UNIQUE of the columns is dumped already
 	for _, column := range columns {
 		if column.IsUnique {
-			uniqueNames[fmt.Sprintf("%s_%s_key", table, column.Name)] = true
+			uniqueNames[sqlparser.PostgresConstraintName(table, column.Name, "key")] = true
 		}
 	}
 
diff --git a/schema/generator.go b/schema/generator.go
index 7a97383..faa2dfb 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -403,7 +403,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", tableNameWithoutSchema(desired.table.name), desiredColumn.name)
+					constraintName := sqlparser.PostgresConstraintName(tableNameWithoutSchema(desired.table.name), desiredColumn.name, "check")
 					if currentColumn.check != nil {
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeCheckName(constraintName))
 						ddls = append(ddls, ddl)
@@ -903,7 +903,7 @@ func (g *Generator) generateDropUniqueIndex(table Table, index Index) string {
 
 // The name PostgreSQL gives to the constraint of a UNIQUE column
 func uniqueConstraintName(table Table, columnName string) string {
-	return fmt.Sprintf("%s_%s_key", tableNameWithoutSchema(table.name), columnName)
+	return sqlparser.PostgresConstraintName(tableNameWithoutSchema(table.name), columnName, "key")
 }
 
 func generateDataType(column Column) string {
@@ -1268,7 +1268,7 @@ func isPrimaryKey(column Column, table Table) bool {
 // The name a primary key has on PostgreSQL
 func primaryKeyName(primaryKey Index, table Table) string {
 	if primaryKey.name == "PRIMARY" { // not named
-		return table.name[strings.Index(table.name, ".")+1:] + "_pkey" // without schema
+		return sqlparser.PostgresConstraintName(table.name[strings.Index(table.name, ".")+1:], "", "pkey") // without schema
 	}
 	return primaryKey.name
 }
diff --git a/sqlparser/constraint_name.go b/sqlparser/constraint_name.go
new file mode 100644
index 0000000..4b380a0
--- /dev/null
+++ b/sqlparser/constraint_name.go
@@ -0,0 +1,22 @@
+package sqlparser
+
+// The name PostgreSQL gives to a constraint without one. It has 63 bytes at most:
+// the longer one of the names of the table and the column is cut until that's the case.
+// columnName is empty if the constraint isn't named after columns.
+func PostgresConstraintName(tableName string, columnName string, label string) string {
+	suffix := "_" + label
+	if columnName != "" {
+		suffix = "_" + suffix // for the "_" between the names
+	}
+	for len(tableName)+len(columnName)+len(suffix) > 63 {
+		if len(tableName) > len(columnName) {
+			tableName = tableName[:len(tableName)-1]
+		} else {
+			columnName = columnName[:len(columnName)-1]
+		}
+	}
+	if columnName != "" {
+		tableName += "_" + columnName
+	}
+	return tableName + "_" + label
+}
-- 
2.43.0

