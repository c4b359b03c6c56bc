SEEDS = [
 dict(id="my-onupdate-drop", property="C01",
  needs="a MySQL column losing its ON UPDATE clause while everything else about it stays the same",
  breaks="the removal of ON UPDATE CURRENT_TIMESTAMP is not noticed; the database keeps updating the column",
  edits=[("schema/generator.go", "reflect.DeepEqual(current.onUpdate, desired.onUpdate)\n", "(desired.onUpdate == nil || reflect.DeepEqual(current.onUpdate, desired.onUpdate))\n")],
  demo='''
	expect(plan(schema.GeneratorModeMysql,
		"CREATE TABLE t (a int, u datetime DEFAULT CURRENT_TIMESTAMP);",
		"CREATE TABLE `t` (`a` int(11), `u` datetime DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP);"),
		"ALTER TABLE `t` CHANGE COLUMN `u` `u` datetime DEFAULT current_timestamp")
'''),
 dict(id="my-alias-chain", property="C06",
  needs="a MySQL column spelled bool (not boolean, not tinyint) in the desired file of a database that already has it",
  breaks="bool is no longer recognised as tinyint(1): a file that matches the database produces a CHANGE COLUMN on every run",
  edits=[("schema/generator.go", '''	alias, ok := dataTypeAliases[dataType]
	if ok {
		dataType = alias
	}
	if g.mode == GeneratorModeMysql {
		alias, ok = mysqlDataTypeAliases[dataType]
		if ok {
			dataType = alias
		}
	}
	return dataType''', '''	if g.mode == GeneratorModeMysql {
		if alias, ok := mysqlDataTypeAliases[dataType]; ok {
			return alias
		}
	}
	if alias, ok := dataTypeAliases[dataType]; ok {
		return alias
	}
	return dataType''')],
  demo='''
	expect(plan(schema.GeneratorModeMysql,
		"CREATE TABLE t (a int, f bool);",
		"CREATE TABLE `t` (`a` int(11) DEFAULT NULL, `f` tinyint(1) DEFAULT NULL);"))
'''),
 dict(id="my-ai-before-key", property="C09",
  needs="one step which adds AUTO_INCREMENT to an existing column that had no key, together with the primary key it needs, while the column was AUTO_INCREMENT-free",
  breaks="AUTO_INCREMENT is given to the column before its key exists; MySQL rejects the statement and the run aborts half-way",
  edits=[("schema/generator.go", "		if currentColumn == nil || !currentColumn.autoIncrement {\n", "		if currentColumn == nil {\n")],
  demo='''
	expect(plan(schema.GeneratorModeMysql,
		"CREATE TABLE t (id bigint NOT NULL AUTO_INCREMENT, a int, PRIMARY KEY (id));",
		"CREATE TABLE `t` (`id` int(11) NOT NULL, `a` int(11) DEFAULT NULL);"),
		"ALTER TABLE `t` CHANGE COLUMN `id` `id` bigint NOT NULL",
		"ALTER TABLE `t` ADD primary key (`id`)",
		"ALTER TABLE `t` CHANGE COLUMN `id` `id` bigint NOT NULL AUTO_INCREMENT")
'''),
 dict(id="my-fk-named-index", property="C08",
  needs="an obsolete plain index of a table which still has a foreign key",
  breaks="an obsolete index is kept when any table still has a foreign key: indexes of tables with foreign keys are never dropped",
  edits=[("schema/generator.go", "				containsString(convertForeignKeysToIndexNames(desiredTable.foreignKeys), index.name) {", "				len(convertForeignKeysToIndexNames(desiredTable.foreignKeys)) > 0 && !index.unique {")],
  demo='''
	expect(plan(schema.GeneratorModeMysql,
		"CREATE TABLE p (id int NOT NULL, PRIMARY KEY (id)); CREATE TABLE t (a int, b int, KEY ka (a), CONSTRAINT fk1 FOREIGN KEY (a) REFERENCES p (id));",
		"CREATE TABLE `p` (`id` int NOT NULL, PRIMARY KEY (`id`));\\n\\nCREATE TABLE `t` (`a` int DEFAULT NULL, `b` int DEFAULT NULL, KEY `ka` (`a`), KEY `kb` (`b`), CONSTRAINT `fk1` FOREIGN KEY (`a`) REFERENCES `p` (`id`));"),
		"ALTER TABLE `t` DROP INDEX `kb`")
'''),
]
