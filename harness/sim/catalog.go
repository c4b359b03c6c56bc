package sim

import (
	"database/sql"
	"fmt"
	"hash/fnv"
	"regexp"
	"sort"
	"strconv"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// The catalogs of PostgreSQL and SQL Server are tables of an in-memory SQLite
// database, which evaluates the queries of the tool: a change of a query
// changes what the tool reads, as it would on a real server.

type catalog struct {
	d     Dialect
	db    *sql.DB
	owner *Server
	rev   int
	rows  map[string][]string // table -> rows as literals
	// for the functions
	condef map[int64]string
	names  map[int64][2]string // object id -> schema, name
	text   map[int64]string    // definitions
	cols   map[int64]map[int64]string
	ids    map[string]int64
}

var catalogs = map[Dialect]*catalog{}

func theCatalog(d Dialect) *catalog {
	if c := catalogs[d]; c != nil {
		return c
	}
	c := &catalog{d: d}
	name := "verif_catalog_" + d.String()
	sql.Register(name, &sqlite3.SQLiteDriver{ConnectHook: func(conn *sqlite3.SQLiteConn) error {
		for n, f := range c.functions() {
			if err := conn.RegisterFunc(n, f, false); err != nil {
				return fmt.Errorf("%s: %v", n, err)
			}
		}
		return nil
	}})
	db, err := sql.Open(name, ":memory:")
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(1)
	db.SetConnMaxLifetime(0)
	c.db = db
	tables := pgCatalogTables
	if d == MSSQL {
		tables = msCatalogTables
	}
	seen := map[string]bool{"main": true}
	var names []string
	for n := range tables {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sch := strings.SplitN(n, ".", 2)[0]
		if !seen[sch] {
			seen[sch] = true
			if _, err := db.Exec("ATTACH ':memory:' AS " + sch); err != nil {
				panic(err)
			}
		}
		if _, err := db.Exec("CREATE TABLE " + n + " (" + tables[n] + ")"); err != nil {
			panic(fmt.Sprintf("%s: %v", n, err))
		}
	}
	catalogs[d] = c
	return c
}

func lit(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case string:
		return "'" + strings.ReplaceAll(x, "'", "''") + "'"
	case bool:
		if x {
			return "1"
		}
		return "0"
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	}
	panic(fmt.Sprintf("literal %T", v))
}

// opt is a text that is NULL when empty.
func opt(s string) interface{} {
	if s == "" {
		return nil
	}
	return s
}

func (c *catalog) add(table string, vals ...interface{}) {
	var l []string
	for _, v := range vals {
		l = append(l, lit(v))
	}
	c.rows[table] = append(c.rows[table], "("+strings.Join(l, ",")+")")
}

func (c *catalog) load(s *Server) {
	if c.owner == s && c.rev == s.rev {
		return
	}
	c.rows = map[string][]string{}
	c.condef, c.names, c.text = map[int64]string{}, map[int64][2]string{}, map[int64]string{}
	c.cols, c.ids = map[int64]map[int64]string{}, map[string]int64{}
	tables := pgCatalogTables
	if c.d == MSSQL {
		tables = msCatalogTables
		c.msFill(s)
	} else {
		c.pgFill(s)
	}
	var sb strings.Builder
	sb.WriteString("BEGIN;")
	for t := range tables {
		sb.WriteString("DELETE FROM " + t + ";")
	}
	for t, rows := range c.rows {
		// No order is promised: use one that does not follow from the names.
		key := func(r string) uint32 {
			h := fnv.New32a()
			h.Write([]byte(r))
			return h.Sum32()
		}
		sort.Slice(rows, func(i, j int) bool {
			a, b := key(rows[i]), key(rows[j])
			return a < b || a == b && rows[i] < rows[j]
		})
		for len(rows) > 0 {
			n := len(rows)
			if n > 400 {
				n = 400
			}
			sb.WriteString("INSERT INTO " + t + " VALUES " + strings.Join(rows[:n], ",") + ";")
			rows = rows[n:]
		}
	}
	sb.WriteString("COMMIT;")
	if _, err := c.db.Exec(sb.String()); err != nil {
		panic(fmt.Sprintf("catalog: %v\n%s", err, sb.String()))
	}
	c.owner, c.rev = s, s.rev
}

var (
	reCast    = regexp.MustCompile(`::\s*"?[a-zA-Z_]+"?(\[\])?`)
	reAny     = regexp.MustCompile(`(?i)([\w.]+)\s*=\s*ANY\s*\(([\w.]+)\)`)
	reParam   = regexp.MustCompile(`\$(\d+)`)
	reAs      = regexp.MustCompile(`(?i)\bAS\s+(check|index|table|default|references|order|group|primary|unique|column|constraint)\b`)
	reMsParam = regexp.MustCompile(`(?i)@p(\d+)`)
	reNolock  = regexp.MustCompile(`(?i)\bWITH\s*\(\s*NOLOCK\s*\)|\(\s*NOLOCK\s*\)`)
)

func (s *Server) catalogQuery(query string, args []interface{}) ([]string, [][]interface{}, error) {
	c := theCatalog(s.D)
	c.load(s)
	q := query
	if s.D == Postgres {
		q = reCast.ReplaceAllString(q, "")
		q = reAny.ReplaceAllString(q, "(instr($2, ',' || $1 || ',') > 0)")
		q = reAs.ReplaceAllString(q, `AS "$1"`)
		q = reParam.ReplaceAllString(q, "?$1")
	} else {
		q = reNolock.ReplaceAllString(q, "")
		q = reMsParam.ReplaceAllString(q, "?$1")
		q = msRewrite(q)
	}
	rows, err := c.db.Query(q, args...)
	if err != nil {
		return nil, nil, fmt.Errorf("%v in: %s", err, query)
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return nil, nil, err
	}
	var out [][]interface{}
	for rows.Next() {
		vals := make([]interface{}, len(cols))
		ptrs := make([]interface{}, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return nil, nil, err
		}
		for i, v := range vals {
			if b, ok := v.([]byte); ok {
				vals[i] = string(b)
			}
		}
		out = append(out, vals)
	}
	return cols, out, rows.Err()
}

func (c *catalog) functions() map[string]interface{} {
	if c.d == MSSQL {
		return c.msFunctions()
	}
	return map[string]interface{}{
		"format_type":            func(oid, mod int64) string { return pgFormatType(oid, mod) },
		"pg_get_constraintdef":   func(a ...interface{}) []byte { return c.def(c.condef, a) },
		"pg_get_indexdef":        func(a ...interface{}) []byte { return c.def(c.text, a) },
		"pg_get_viewdef":         func(a ...interface{}) []byte { return c.def(c.text, a) },
		"pg_get_expr":            func(a ...interface{}) []byte { return textOf(a[0]) },
		"quote_ident":            func(s string) string { return pgName(s) },
		"current_schema":         func() string { return "public" },
		"current_database":       func() string { return "simdb" },
		"pg_table_is_visible":    func(id int64) bool { return c.names[id][0] == "public" },
		"array_to_string":        func(a, b string) string { return strings.ReplaceAll(strings.Trim(a, "{}"), ",", b) },
		"concat":                 func(a ...interface{}) string { return fmt.Sprint(a...) },
		"array_length":           func(a string, dim int64) int64 { return int64(len(strings.Split(strings.Trim(a, "{},"), ","))) },
		"cardinality":            func(a string) int64 { return int64(len(strings.Split(strings.Trim(a, "{},"), ","))) },
		"pg_get_serial_sequence": func(a, b string) []byte { return nil },
	}
}

// The functions give their text as bytes: the driver makes NULL of none.
func (c *catalog) def(m map[int64]string, a []interface{}) []byte {
	if len(a) == 0 || a[0] == nil {
		return nil
	}
	id, ok := a[0].(int64)
	if !ok {
		return nil
	}
	return []byte(m[id])
}

func textOf(v interface{}) []byte {
	switch x := v.(type) {
	case []byte:
		return x
	case nil:
		return nil
	}
	return []byte(fmt.Sprint(v))
}

// ---- PostgreSQL ----

var pgCatalogTables = map[string]string{
	"information_schema.tables":                  "table_catalog, table_schema, table_name, table_type",
	"information_schema.views":                   "table_catalog, table_schema, table_name, view_definition",
	"information_schema.columns":                 "table_catalog, table_schema, table_name, column_name, ordinal_position, column_default, is_nullable, data_type, character_maximum_length, numeric_precision, numeric_scale, datetime_precision, udt_schema, udt_name, is_identity, identity_generation",
	"information_schema.table_constraints":       "constraint_catalog, constraint_schema, constraint_name, table_catalog, table_schema, table_name, constraint_type, is_deferrable, initially_deferred",
	"information_schema.key_column_usage":        "constraint_catalog, constraint_schema, constraint_name, table_catalog, table_schema, table_name, column_name, ordinal_position, position_in_unique_constraint",
	"information_schema.constraint_column_usage": "table_catalog, table_schema, table_name, column_name, constraint_catalog, constraint_schema, constraint_name",
	"information_schema.referential_constraints": "constraint_catalog, constraint_schema, constraint_name, unique_constraint_catalog, unique_constraint_schema, unique_constraint_name, match_option, update_rule, delete_rule",
	"information_schema.check_constraints":       "constraint_catalog, constraint_schema, constraint_name, check_clause",
	"pg_catalog.pg_namespace":                    "oid, nspname",
	"pg_catalog.pg_class":                        "oid, relname, relnamespace, relkind, relrowsecurity",
	"pg_catalog.pg_type":                         "oid, typname, typnamespace, typelem",
	"pg_catalog.pg_attribute":                    "attrelid, attname, atttypid, attnum, atttypmod, attnotnull, atthasdef, attidentity, attisdropped",
	"pg_catalog.pg_attrdef":                      "oid, adrelid, adnum, adbin, adsrc",
	"pg_catalog.pg_constraint":                   "oid, conname, connamespace, contype, conrelid, conindid, confrelid, conkey, confkey, confupdtype, confdeltype, connoinherit",
	"pg_catalog.pg_index":                        "indexrelid, indrelid, indisunique, indisprimary, indkey",
	"pg_catalog.pg_indexes":                      "schemaname, tablename, indexname, tablespace, indexdef",
	"pg_catalog.pg_tables":                       "schemaname, tablename, tableowner",
	"pg_catalog.pg_views":                        "schemaname, viewname, viewowner, definition",
	"pg_catalog.pg_policies":                     "schemaname, tablename, policyname, permissive, roles, cmd, qual, with_check",
}

var pgTypeOids = map[string]int64{
	"boolean": 16, "bytea": 17, "name": 19, "bigint": 20, "smallint": 21, "integer": 23, "text": 25, "json": 114,
	"xml": 142, "point": 600, "real": 700, "double precision": 701, "money": 790, "inet": 869, "cidr": 650,
	"character": 1042, "character varying": 1043, "date": 1082, "time without time zone": 1083,
	"timestamp without time zone": 1114, "timestamp with time zone": 1184, "interval": 1186,
	"time with time zone": 1266, "bit": 1560, "numeric": 1700, "uuid": 2950, "jsonb": 3802,
}

var pgUdt = map[string]string{
	"boolean": "bool", "bigint": "int8", "smallint": "int2", "integer": "int4", "real": "float4",
	"double precision": "float8", "character": "bpchar", "character varying": "varchar",
	"time without time zone": "time", "timestamp without time zone": "timestamp",
	"timestamp with time zone": "timestamptz", "time with time zone": "timetz",
}

const pgArrayOid = 10000

func pgTypeName(oid int64) string {
	for n, o := range pgTypeOids {
		if o == oid {
			return n
		}
	}
	return "-"
}

func pgTypmod(c *Col) int64 {
	n := func(i int) int64 { v, _ := strconv.ParseInt(c.Args[i], 10, 64); return v }
	if len(c.Args) == 0 {
		return -1
	}
	switch c.Type {
	case "character", "character varying":
		return n(0) + 4
	case "numeric":
		return n(0)<<16 | n(1) + 4
	}
	return n(0)
}

func pgFormatType(oid, mod int64) string {
	suffix := ""
	if oid >= pgArrayOid {
		oid -= pgArrayOid
		suffix = "[]"
	}
	if oid == 0 {
		return "-"
	}
	n := pgTypeName(oid)
	if mod < 0 {
		if n == "character" {
			n = "bpchar"
		}
		return n + suffix
	}
	switch n {
	case "character", "character varying":
		n += fmt.Sprintf("(%d)", mod-4)
	case "numeric":
		n += fmt.Sprintf("(%d,%d)", (mod-4)>>16, (mod-4)&0xffff)
	default:
		if i := strings.Index(n, " with"); i >= 0 {
			n = n[:i] + fmt.Sprintf("(%d)", mod) + n[i:]
		} else {
			n += fmt.Sprintf("(%d)", mod)
		}
	}
	return n + suffix
}

func (c *catalog) pgFill(s *Server) {
	const db = "simdb"
	oid := int64(16384)
	next := func() int64 { oid++; return oid }
	ns := map[string]int64{"public": 2200, "pg_catalog": 11, "information_schema": 13000, "app": 16384}
	for n, o := range ns {
		c.add("pg_catalog.pg_namespace", o, n)
	}
	for n, o := range pgTypeOids {
		u := n
		if x, ok := pgUdt[n]; ok {
			u = x
		}
		c.add("pg_catalog.pg_type", o, u, 11, 0)
		c.add("pg_catalog.pg_type", o+pgArrayOid, "_"+u, 11, o)
	}
	// the server's own catalogs are listed as well
	for _, n := range []string{"tables", "columns", "views", "sequences", "triggers", "routines", "domains"} {
		c.add("information_schema.tables", db, "information_schema", n, "VIEW")
		c.add("pg_catalog.pg_views", "information_schema", n, "postgres", " SELECT 1 AS x;")
	}
	for _, n := range []string{"pg_class", "pg_index", "pg_type"} {
		c.add("information_schema.tables", db, "pg_catalog", n, "BASE TABLE")
		c.add("pg_catalog.pg_tables", "pg_catalog", n, "postgres")
	}
	c.add("information_schema.tables", db, "information_schema", "sql_features", "BASE TABLE")
	yes := func(b bool) string {
		if b {
			return "YES"
		}
		return "NO"
	}
	rel := map[*Table]int64{}
	for _, t := range s.S.Tables {
		rel[t] = next()
	}
	keyName := map[string]string{} // "schema.table(cols)" -> name of the key
	for _, t := range s.S.Tables {
		id := rel[t]
		c.names[id] = [2]string{t.Schema, t.Name}
		c.add("pg_catalog.pg_class", id, t.Name, ns[t.Schema], "r", len(t.Policies) > 0)
		c.add("pg_catalog.pg_tables", t.Schema, t.Name, "postgres")
		c.add("information_schema.tables", db, t.Schema, t.Name, "BASE TABLE")
		for i, n := range []string{"ctid", "xmin"} {
			c.add("pg_catalog.pg_attribute", id, n, 27, -1-i, -1, 1, 0, "", 0)
		}
		for _, n := range t.Gone {
			c.add("pg_catalog.pg_attribute", id, fmt.Sprintf("........pg.dropped.%d........", n), 0, n, -1, 0, 0, "", 1)
		}
		num := map[string]int{}
		for _, col := range t.Cols {
			num[col.Name] = col.Num
			def := col.DefaultRaw
			if col.Serial {
				seq := pgName(t.Name + "_" + col.Name + "_seq")
				if t.Schema != "public" {
					seq = pgName(t.Schema) + "." + seq
				}
				def = "nextval('" + strings.ReplaceAll(seq, "'", "''") + "'::regclass)"
				c.add("pg_catalog.pg_class", next(), t.Name+"_"+col.Name+"_seq", ns[t.Schema], "S", 0)
			}
			ty := pgTypeOids[col.Type]
			if ty == 0 {
				panic("no type oid for " + col.Type)
			}
			udt := col.Type
			if x, ok := pgUdt[col.Type]; ok {
				udt = x
			}
			data := col.Type
			var maxlen, prec, scale, dt interface{}
			if col.Array {
				ty += pgArrayOid
				data, udt = "ARRAY", "_"+udt
			} else {
				switch {
				case pgStrType(col.Type) || col.Type == "bit":
					if len(col.Args) > 0 {
						maxlen = col.Args[0]
					}
				case col.Type == "numeric":
					if len(col.Args) > 0 {
						prec, scale = col.Args[0], col.Args[1]
					}
				case col.Type == "smallint":
					prec, scale = 16, 0
				case col.Type == "integer":
					prec, scale = 32, 0
				case col.Type == "bigint":
					prec, scale = 64, 0
				case col.Type == "real":
					prec = 24
				case col.Type == "double precision":
					prec = 53
				case col.Type == "date":
					dt = 0
				case strings.HasPrefix(col.Type, "time"):
					dt = 6
					if len(col.Args) > 0 {
						dt = col.Args[0]
					}
				}
			}
			idn, gen := "", interface{}(nil)
			if col.Identity != nil {
				gen = col.Identity.Behavior
				idn = map[string]string{"ALWAYS": "a", "BY DEFAULT": "d"}[col.Identity.Behavior]
				c.add("pg_catalog.pg_class", next(), t.Name+"_"+col.Name+"_seq", ns[t.Schema], "S", 0)
			}
			c.add("pg_catalog.pg_attribute", id, col.Name, ty, col.Num, pgTypmod(col), col.NotNull, def != "", idn, 0)
			if def != "" {
				c.add("pg_catalog.pg_attrdef", next(), id, col.Num, def, def)
			}
			c.add("information_schema.columns", db, t.Schema, t.Name, col.Name, col.Num, opt(def), yes(!col.NotNull), data, maxlen, prec, scale, dt, "pg_catalog", udt, yes(col.Identity != nil), gen)
			if col.NotNull {
				c.add("information_schema.table_constraints", db, t.Schema, fmt.Sprintf("%d_%d_%d_not_null", ns[t.Schema], id, col.Num), db, t.Schema, t.Name, "CHECK", "NO", "NO")
				c.add("information_schema.check_constraints", db, t.Schema, fmt.Sprintf("%d_%d_%d_not_null", ns[t.Schema], id, col.Num), col.Name+" IS NOT NULL")
			}
			if k := col.Check; k != nil {
				o := next()
				c.condef[o] = k.Raw
				c.add("pg_catalog.pg_constraint", o, k.Name, ns[t.Schema], "c", id, 0, 0, fmt.Sprintf(",%d,", col.Num), nil, " ", " ", k.NoInherit)
				c.add("information_schema.table_constraints", db, t.Schema, k.Name, db, t.Schema, t.Name, "CHECK", "NO", "NO")
				c.add("information_schema.check_constraints", db, t.Schema, k.Name, k.Expr)
				c.add("information_schema.constraint_column_usage", db, t.Schema, t.Name, col.Name, db, t.Schema, k.Name)
			}
		}
		nums := func(cols []string) string {
			out := ","
			for _, n := range cols {
				out += strconv.Itoa(num[n]) + ","
			}
			return out
		}
		for _, ix := range t.Indexes {
			o := next()
			def := pgIndexDef(t, ix)
			c.text[o] = def
			c.add("pg_catalog.pg_class", o, ix.Name, ns[t.Schema], "i", 0)
			c.add("pg_catalog.pg_index", o, id, ix.Kind != "index", ix.Kind == "primary", strings.Trim(strings.ReplaceAll(nums(ix.names()), ",", " "), " "))
			c.add("pg_catalog.pg_indexes", t.Schema, t.Name, ix.Name, nil, def)
			if (ix.Kind == "primary" || ix.Kind == "unique") && ix.Where == "" {
				keyName[t.full()+"("+strings.Join(sorted(ix.names()), ",")+")"] = ix.Name
			}
			if !ix.Constraint {
				continue
			}
			k, ct := "UNIQUE", "u"
			if ix.Kind == "primary" {
				k, ct = "PRIMARY KEY", "p"
			}
			co := next()
			var q []string
			for i, n := range ix.names() {
				q = append(q, pgName(n))
				c.add("information_schema.key_column_usage", db, t.Schema, ix.Name, db, t.Schema, t.Name, n, i+1, nil)
				c.add("information_schema.constraint_column_usage", db, t.Schema, t.Name, n, db, t.Schema, ix.Name)
			}
			c.condef[co] = k + " (" + strings.Join(q, ", ") + ")"
			c.add("pg_catalog.pg_constraint", co, ix.Name, ns[t.Schema], ct, id, o, 0, nums(ix.names()), nil, " ", " ", 1)
			c.add("information_schema.table_constraints", db, t.Schema, ix.Name, db, t.Schema, t.Name, k, "NO", "NO")
		}
		for _, p := range t.Policies {
			c.add("pg_catalog.pg_policies", t.Schema, t.Name, p.Name, p.Permissive, "{"+strings.Join(p.Roles, ",")+"}", p.Cmd, opt(p.UsingRaw), opt(p.CheckRaw))
		}
	}
	for _, t := range s.S.Tables {
		num := map[string]int{}
		for _, col := range t.Cols {
			num[col.Name] = col.Num
		}
		for _, f := range t.FKs {
			o := next()
			var r *Table
			if r = s.S.table(f.RefSchema, f.Ref); r == nil {
				continue
			}
			key, fkey := ",", ","
			var q, rq []string
			for i, n := range f.Cols {
				key += fmt.Sprintf("%d,", num[n])
				fkey += fmt.Sprintf("%d,", r.col(f.RefCols[i]).Num)
				q = append(q, pgName(n))
				rq = append(rq, pgName(f.RefCols[i]))
				c.add("information_schema.key_column_usage", db, t.Schema, f.Name, db, t.Schema, t.Name, n, i+1, i+1)
				c.add("information_schema.constraint_column_usage", db, r.Schema, r.Name, f.RefCols[i], db, t.Schema, f.Name)
			}
			rn := pgName(r.Name)
			if r.Schema != "public" {
				rn = pgName(r.Schema) + "." + rn
			}
			def := "FOREIGN KEY (" + strings.Join(q, ", ") + ") REFERENCES " + rn + "(" + strings.Join(rq, ", ") + ")"
			if f.OnUpdate != "NO ACTION" {
				def += " ON UPDATE " + f.OnUpdate
			}
			if f.OnDelete != "NO ACTION" {
				def += " ON DELETE " + f.OnDelete
			}
			c.condef[o] = def
			act := map[string]string{"NO ACTION": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}
			c.add("pg_catalog.pg_constraint", o, f.Name, ns[t.Schema], "f", rel[t], 0, rel[r], key, fkey, act[f.OnUpdate], act[f.OnDelete], 1)
			c.add("information_schema.table_constraints", db, t.Schema, f.Name, db, t.Schema, t.Name, "FOREIGN KEY", "NO", "NO")
			c.add("information_schema.referential_constraints", db, t.Schema, f.Name, db, r.Schema, opt(keyName[r.full()+"("+strings.Join(sorted(f.RefCols), ",")+")"]), "NONE", f.OnUpdate, f.OnDelete)
		}
	}
	for _, v := range s.S.Views {
		o := next()
		c.names[o] = [2]string{v.Schema, v.Name}
		c.text[o] = v.Raw
		c.add("pg_catalog.pg_class", o, v.Name, ns[v.Schema], "v", 0)
		c.add("pg_catalog.pg_views", v.Schema, v.Name, "postgres", v.Raw)
		c.add("information_schema.tables", db, v.Schema, v.Name, "VIEW")
		c.add("information_schema.views", db, v.Schema, v.Name, v.Raw)
		for i, n := range v.Cols {
			ty := pgTypeOids[v.Types[i]]
			if ty == 0 {
				ty = 25
			}
			c.add("pg_catalog.pg_attribute", o, n, ty, i+1, -1, 0, 0, "", 0)
			c.add("information_schema.columns", db, v.Schema, v.Name, n, i+1, nil, "YES", v.Types[i], nil, nil, nil, nil, "pg_catalog", "text", "NO", nil)
		}
	}
}

func sorted(xs []string) []string {
	out := append([]string(nil), xs...)
	sort.Strings(out)
	return out
}
