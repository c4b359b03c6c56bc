package gen

import (
	"fmt"
	"strings"

	"verif.local/harness/engine"
	"verif.local/harness/sim"
)

// FileStmt is one statement of a desired file.
type FileStmt struct {
	Kind  string // table index alterindex view policy trigger
	Name  string
	Table string
	Toks  []string
}

// File generates desired files of every dialect: statements the tool accepts
// on an empty database, with names and literals full of separators.
type File struct {
	T       *engine.T
	D       sim.Dialect
	Nasty   bool // names and literals with quotes, separators and comment marks
	Case    bool // keywords in mixed case
	n       int
	Tables  []FileTable
	noTrick bool
}

// FileTable is a table of the file.
type FileTable struct {
	Name string
	Cols []string
}

// NewFile makes a generator.
func NewFile(t *engine.T, d sim.Dialect) *File {
	return &File{T: t, D: d, Nasty: t.Chance(60), Case: t.Chance(40)}
}

var fileWords = []string{"users", "posts", "acct", "t1", "logs", "item", "tag_map", "x9"}
var fileOdd = []string{"my table", "order", "a;b", "it's", "x--y", "a/*b", "Mixed", "sel\"ect", "ba`ck", "br]ack", "drop", "a.b", "größe", "c*/d", "#h"}

func (f *File) kw(s string) []string {
	out := strings.Fields(s)
	if f.Case {
		for i := range out {
			if f.T.Bool() {
				out[i] = strings.ToLower(out[i])
			}
		}
	}
	return out
}

func (f *File) fresh(prefix string) string {
	f.n++
	if f.Nasty && f.T.Chance(35) {
		for {
			w := engine.Pick(f.T, fileOdd)
			if f.usable(w) {
				return fmt.Sprintf("%s %s%d", w, prefix, f.n)
			}
			if f.T.Bool() {
				break
			}
		}
	}
	return fmt.Sprintf("%s%s%d", engine.Pick(f.T, fileWords), prefix, f.n)
}

// usable: names with a character that ends quotes are left out where the
// dialect's quoting by the tool has no escape for it.
func (f *File) usable(w string) bool {
	return true
}

// Quote spells a name.
func (f *File) Quote(n string) string {
	plainName := !strings.ContainsAny(n, " ;'-/*\"`].#") && n == strings.ToLower(n)
	for _, c := range n {
		plainName = plainName && c < 0x80
	}
	if plainName && f.T.Chance(60) {
		return n
	}
	switch f.D {
	case sim.MySQL:
		return "`" + strings.ReplaceAll(n, "`", "``") + "`"
	case sim.MSSQL:
		if f.T.Chance(70) {
			return "[" + strings.ReplaceAll(n, "]", "]]") + "]"
		}
	case sim.SQLite:
		if f.T.Bool() {
			return "`" + strings.ReplaceAll(n, "`", "``") + "`"
		}
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

var fileStrs = []string{"", "a", "x;y", "it's", "a -- b", "/* c */", "\n-- d\ne", "q\"r", "back\\slash", "`", "[", "]", "drop table x", "#no", "end;", "''", "*/", "%_", "é", "a\\", "/*", ";"}

// Str spells a string.
func (f *File) Str(s string) string {
	s = strings.ReplaceAll(s, "'", "''")
	if f.D == sim.MySQL {
		s = strings.ReplaceAll(s, `\`, `\\`)
	}
	return "'" + s + "'"
}

func (f *File) lit() string {
	if !f.Nasty {
		return f.Str(engine.Pick(f.T, []string{"a", "b c", "1"}))
	}
	return f.Str(engine.Pick(f.T, fileStrs))
}

func (f *File) typ() (string, string) { // type, family
	switch f.D {
	case sim.MySQL:
		return pairOf(f.T, "int", "n", "bigint(20)", "n", "varchar(40)", "s", "text", "x", "decimal(10,2)", "n", "datetime", "x", "char(3)", "s")
	case sim.Postgres:
		return pairOf(f.T, "integer", "n", "bigint", "n", "varchar(40)", "s", "text", "s", "numeric(10,2)", "n", "timestamp", "x", "boolean", "x", "jsonb", "x")
	case sim.MSSQL:
		return pairOf(f.T, "int", "n", "bigint", "n", "varchar(40)", "s", "nvarchar(20)", "s", "decimal(10,2)", "n", "datetime", "x", "bit", "x")
	}
	return pairOf(f.T, "integer", "n", "text", "s", "varchar(40)", "s", "real", "n", "blob", "x", "datetime", "x")
}

func pairOf(t *engine.T, xs ...string) (string, string) {
	i := t.N(len(xs) / 2)
	return xs[2*i], xs[2*i+1]
}

func toks(xs ...interface{}) []string {
	var out []string
	for _, x := range xs {
		switch x := x.(type) {
		case string:
			out = append(out, x)
		case []string:
			out = append(out, x...)
		}
	}
	return out
}

// Table makes a CREATE TABLE.
func (f *File) Table() FileStmt {
	name := f.fresh("t")
	ft := FileTable{Name: name}
	out := toks(f.kw("CREATE TABLE"), f.Quote(name), "(", f.Quote("id"), f.intType(), f.kw("NOT NULL"))
	ft.Cols = append(ft.Cols, "id")
	switch f.T.N(3) {
	case 0:
		out = toks(out, f.kw("PRIMARY KEY"))
	}
	for i := f.T.N(4); i > 0; i-- {
		n := f.fresh("c")
		ty, fam := f.typ()
		ft.Cols = append(ft.Cols, n)
		out = toks(out, ",", f.Quote(n), ty)
		if f.T.Bool() {
			out = toks(out, f.kw("NOT NULL"))
		}
		if f.T.Bool() {
			switch fam {
			case "s":
				out = toks(out, f.kw("DEFAULT"), f.lit())
			case "n":
				out = toks(out, f.kw("DEFAULT"), engine.Pick(f.T, []string{"0", "1", "42", "7"}))
			}
		}
		if f.T.Chance(30) && f.D == sim.MySQL {
			out = toks(out, f.kw("COMMENT"), f.lit())
		}
		if f.T.Chance(20) && f.D != sim.MySQL {
			if fam == "s" {
				out = toks(out, f.kw("CHECK"), "(", f.Quote(n), engine.Pick(f.T, []string{"=", "<>"}), f.lit(), ")")
			} else if fam == "n" {
				out = toks(out, f.kw("CHECK"), "(", f.Quote(n), ">", "0", ")")
			}
		}
	}
	out = toks(out, ")")
	f.Tables = append(f.Tables, ft)
	return FileStmt{Kind: "table", Name: name, Toks: out}
}

func (f *File) intType() string {
	if f.D == sim.MySQL {
		return engine.Pick(f.T, []string{"int", "bigint(20)"})
	}
	return engine.Pick(f.T, []string{"integer", "bigint"})
}

func (f *File) table() FileTable { return engine.Pick(f.T, f.Tables) }

// Index makes a CREATE INDEX or an ALTER TABLE ADD INDEX.
func (f *File) Index() FileStmt {
	tb := f.table()
	name := f.fresh("i")
	cols := f.Quote(engine.Pick(f.T, tb.Cols))
	if f.D == sim.MySQL && f.T.Chance(40) {
		return FileStmt{"alterindex", name, tb.Name, toks(f.kw("ALTER TABLE"), f.Quote(tb.Name), f.kw(engine.Pick(f.T, []string{"ADD INDEX", "ADD KEY", "ADD UNIQUE KEY", "ADD UNIQUE INDEX"})), f.Quote(name), "(", cols, ")")}
	}
	u := ""
	if f.T.Chance(30) {
		u = "UNIQUE"
	}
	out := toks(f.kw("CREATE "+u+" INDEX"), f.Quote(name), f.kw("ON"), f.Quote(tb.Name), "(", cols, ")")
	if f.D == sim.Postgres && f.T.Chance(30) {
		out = toks(out, f.kw("WHERE"), f.Quote(engine.Pick(f.T, tb.Cols)), "=", f.lit())
	}
	return FileStmt{"index", name, tb.Name, out}
}

// View makes a CREATE VIEW.
func (f *File) View() FileStmt {
	tb := f.table()
	name := f.fresh("v")
	out := toks(f.kw("CREATE VIEW"), f.Quote(name), f.kw("AS SELECT"), f.Quote(engine.Pick(f.T, tb.Cols)))
	if f.T.Chance(30) {
		out = toks(out, ",", f.lit(), f.kw("AS"), "lit")
	}
	out = toks(out, f.kw("FROM"), f.Quote(tb.Name))
	if f.T.Chance(60) {
		out = toks(out, f.kw("WHERE"), f.Quote(engine.Pick(f.T, tb.Cols)), engine.Pick(f.T, []string{"=", "<>", ">"}), f.lit())
	}
	return FileStmt{"view", name, tb.Name, out}
}

// Policy makes a CREATE POLICY.
func (f *File) Policy() FileStmt {
	tb := f.table()
	name := f.fresh("p")
	out := toks(f.kw("CREATE POLICY"), f.Quote(name), f.kw("ON"), f.Quote(tb.Name), f.kw("AS "+engine.Pick(f.T, []string{"PERMISSIVE", "RESTRICTIVE"})+" FOR ALL TO PUBLIC USING"), "(", f.Quote("id"), "=", f.lit(), ")")
	if f.T.Chance(40) {
		out = toks(out, f.kw("WITH CHECK"), "(", f.Quote("id"), ">", "0", ")")
	}
	return FileStmt{"policy", name, tb.Name, out}
}

// Trigger makes a MySQL trigger.
func (f *File) Trigger() FileStmt {
	tb, to := f.table(), f.table()
	name := f.fresh("g")
	out := toks(f.kw("CREATE TRIGGER"), f.Quote(name), f.kw(engine.Pick(f.T, []string{"BEFORE", "AFTER"})+" "+engine.Pick(f.T, []string{"INSERT", "UPDATE", "DELETE"})+" ON"), f.Quote(tb.Name), f.kw("FOR EACH ROW INSERT INTO"), f.Quote(to.Name), "(", f.Quote("id"), ")", f.kw("VALUES"), "(", f.lit(), ")")
	return FileStmt{"trigger", name, tb.Name, out}
}

// Any makes any statement.
func (f *File) Any() FileStmt {
	if len(f.Tables) == 0 {
		return f.Table()
	}
	switch f.T.N(6) {
	case 0, 1:
		return f.Table()
	case 2, 3:
		return f.Index()
	case 4:
		return f.View()
	}
	switch f.D {
	case sim.Postgres:
		return f.Policy()
	case sim.MySQL:
		if !f.noTrick {
			return f.Trigger()
		}
	}
	return f.Index()
}

// Text spells a statement, with blanks and comments between its tokens.
func (f *File) Text(ts []string) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			switch {
			case (t == "," || t == ")" || ts[i-1] == "(") && f.T.Bool():
			case f.Nasty && f.T.Chance(4):
				sb.WriteString(engine.Pick(f.T, []string{" /* ; it's \" */ ", "\n-- it's; \"c\n", " -- d;`\n", "\n--\n", "/**/", " /* -- */ "}))
			case f.T.Chance(20):
				sb.WriteString("\n  ")
			default:
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(t)
	}
	return sb.String()
}
