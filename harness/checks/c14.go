package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/k0kubun/sqldef/schema"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

// invalidStmt makes a statement that must be refused, given the statements
// around it. kind is the class of the defect.
func invalidStmt(t *engine.T, f *gen.File, stmts []gen.FileStmt, known map[string]bool) (kind, text string) {
	tb := engine.Pick(t, f.Tables)
	col := engine.Pick(t, tb.Cols)
	q := f.Quote
	ghost := q("ghost")
	switch t.N(6) {
	case 0: // syntax errors: a valid statement with its structure broken
		s := engine.Pick(t, stmts)
		toks := append([]string{}, s.Toks...)
		open, close := -1, -1
		for i, x := range toks {
			if x == "(" && open < 0 {
				open = i
			}
			if x == ")" {
				close = i
			}
		}
		switch t.N(8) {
		case 6:
			return "open", f.Text(toks) + engine.Pick(t, []string{" /* never", " 'never", " \"never"})
		case 7:
			return "open", engine.Pick(t, []string{"/* never ", "'never ", "\"never "}) + f.Text(toks)
		case 0:
			toks[0] = engine.Pick(t, []string{"CRATE", "foo", "(", "=", ",", "123", "CREATE CREATE", "CREATE TABLE CREATE"})
		case 1:
			toks = append([]string{engine.Pick(t, []string{"foo", "bar baz", ")", "'x'", ",", "0"})}, toks...)
		case 2:
			if open < 0 {
				toks = toks[:2]
			} else {
				toks = toks[:t.Range(open+1, close)]
			}
		case 3:
			if open < 0 {
				toks = toks[:1]
			} else {
				toks = append(append(append([]string{}, toks[:open+1]...), ","), toks[open+1:]...)
			}
		case 4:
			if close < 0 {
				toks = append(toks, "FROM")
			} else {
				toks = append(append(append([]string{}, toks[:close]...), engine.Pick(t, []string{",", "(", ", ,", "= ="})), toks[close:]...)
			}
		case 5:
			toks = append(toks, ")")
		}
		return "syntax", f.Text(toks)
	case 1: // statements that are not declarative DDL
		x := q("zz")
		all := []string{
			"DROP TABLE " + q(tb.Name), "DROP TABLE IF EXISTS " + q(tb.Name), "DROP VIEW " + x,
			"INSERT INTO " + q(tb.Name) + " (" + q(col) + ") VALUES (1)", "SELECT * FROM " + q(tb.Name), "SELECT 1",
			"UPDATE " + q(tb.Name) + " SET " + q(col) + " = 1", "DELETE FROM " + q(tb.Name),
			"SELECT 1 UNION SELECT 2", "REPLACE INTO " + q(tb.Name) + " (" + q(col) + ") VALUES (1)",
			"TRUNCATE TABLE " + q(tb.Name), "ALTER TABLE " + q(tb.Name) + " DROP COLUMN " + q(col),
			"ALTER TABLE " + q(tb.Name) + " ADD COLUMN " + x + " int", "RENAME TABLE " + q(tb.Name) + " TO " + x,
			"ALTER TABLE " + q(tb.Name) + " RENAME TO " + x,
			"BEGIN", "COMMIT", "ROLLBACK", "SET a = 1", "SHOW TABLES", "DROP INDEX " + x + " ON " + q(tb.Name),
			"drop table " + q(tb.Name), "delete from " + q(tb.Name), "EXPLAIN SELECT 1",
			"CREATE DATABASE zz", "DROP DATABASE zz", "USE zz", "ANALYZE TABLE " + q(tb.Name), "GRANT ALL ON x TO y",
		}
		return "not-declarative", engine.Pick(t, all)
	case 2: // on a table the file does not declare
		switch t.N(4) {
		case 0:
			if f.D == sim.MySQL {
				return "unknown-table", fmt.Sprintf("ALTER TABLE %s ADD %sINDEX zi (%s)", ghost, engine.Pick(t, []string{"", "UNIQUE "}), q(col))
			}
		case 1, 2:
			switch f.D {
			case sim.Postgres:
				return "unknown-table", fmt.Sprintf("CREATE POLICY zp ON %s AS PERMISSIVE FOR ALL TO PUBLIC USING (%s > 0)", ghost, q(col))
			case sim.MSSQL:
				return "unknown-table", fmt.Sprintf("CREATE UNIQUE CLUSTERED INDEX zi ON %s (%s)", ghost, q(col))
			}
		case 3:
			if f.D == sim.Postgres {
				return "unknown-table", fmt.Sprintf("ALTER TABLE ONLY %s ADD CONSTRAINT zf FOREIGN KEY (%s) REFERENCES %s (%s)", ghost, q(col), q(tb.Name), q(col))
			}
		}
		return "unknown-table", fmt.Sprintf("CREATE %sINDEX zi ON %s (%s)", engine.Pick(t, []string{"", "UNIQUE "}), ghost, q(col))
	}
	if f.D == sim.MySQL && known[tb.Name] && t.Chance(40) {
		// an existing table gets a foreign key without a name
		for _, s := range stmts {
			if s.Kind == "table" && s.Name == tb.Name {
				return "unnamed", f.Text(append(append([]string{}, s.Toks[:len(s.Toks)-1]...), ",", "FOREIGN KEY", "(", q("id"), ")", "REFERENCES", q(tb.Name), "(", q("id"), ")", ")"))
			}
		}
	}
	if f.D == sim.MySQL && t.Chance(20) {
		// a key inside a new table and again outside
		return "twice", fmt.Sprintf("CREATE TABLE zz (%s int, %s zk (%s)); %s", q("a"), engine.Pick(t, []string{"KEY", "UNIQUE KEY", "INDEX"}), q("a"), engine.Pick(t, []string{"CREATE INDEX zk ON zz (a)", "ALTER TABLE zz ADD INDEX zk (a)"}))
	}
	// something declared a second time
	var named []gen.FileStmt
	for _, s := range stmts {
		switch s.Kind {
		case "index", "alterindex", "view", "policy", "fk":
			named = append(named, s)
		}
	}
	if len(named) == 0 {
		return "syntax", "CREATE TABLE " + q(tb.Name)
	}
	s := engine.Pick(t, named)
	toks := append([]string{}, s.Toks...)
	if (s.Kind == "index" || s.Kind == "alterindex") && t.Bool() {
		// on another column of its table
		for _, x := range f.Tables {
			if x.Name == s.Table {
				return "twice", fmt.Sprintf("CREATE INDEX %s ON %s (%s)", q(s.Name), q(s.Table), q(engine.Pick(t, x.Cols)))
			}
		}
	}
	if s.Kind == "view" && t.Bool() {
		return "twice", fmt.Sprintf("CREATE VIEW %s AS SELECT %s FROM %s", q(s.Name), q(col), q(tb.Name))
	}
	return "twice", f.Text(toks)
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// foreign keys by ALTER, PostgreSQL only
func fileFK(t *engine.T, f *gen.File) gen.FileStmt {
	a, b := engine.Pick(t, f.Tables), engine.Pick(t, f.Tables)
	name := fmt.Sprintf("fk%d", t.Range(1, 99999))
	return gen.FileStmt{Kind: "fk", Name: name, Table: a.Name, Toks: []string{
		"ALTER TABLE ONLY", f.Quote(a.Name), "ADD CONSTRAINT", name, "FOREIGN KEY", "(", f.Quote(engine.Pick(t, a.Cols)), ")",
		"REFERENCES", f.Quote(b.Name), "(", f.Quote("id"), ")"}}
}

// badFile makes a desired file with one defect and a current schema for it.
func badFile(t *engine.T, d sim.Dialect) (kind, bad, desired, current string, good string) {
	f := gen.NewFile(t, d)
	var stmts []gen.FileStmt
	for i := t.Range(1, 6); i > 0; i-- {
		if d == sim.Postgres && len(f.Tables) > 0 && t.Chance(15) {
			stmts = append(stmts, fileFK(t, f))
			continue
		}
		stmts = append(stmts, f.Any())
	}
	// the current schema has some of it, and a table the file does not declare
	var cur []string
	known := map[string]bool{}
	for _, s := range stmts {
		if s.Kind == "table" && t.Bool() {
			known[s.Name] = true
			cur = append(cur, f.Text(s.Toks))
		} else if s.Kind != "table" && s.Kind != "trigger" && s.Kind != "alterindex" && known[s.Table] && t.Bool() {
			cur = append(cur, f.Text(s.Toks))
		}
	}
	if t.Chance(40) {
		cur = append(cur, "CREATE TABLE "+f.Quote("ghost")+" ("+f.Quote("id")+" integer NOT NULL, "+f.Quote("c")+" integer)")
	}
	var parts []string
	for _, s := range stmts {
		parts = append(parts, f.Text(s.Toks))
	}
	good = strings.Join(parts, ";\n")
	kind, bad = invalidStmt(t, f, stmts, known)
	at := t.N(len(parts) + 1)
	if kind == "open" {
		at = len(parts)
	}
	if kind == "twice" {
		at = len(parts)
		// a later first declaration makes an earlier one the second
		if t.Bool() {
			at = t.N(len(parts) + 1)
			for i, s := range stmts {
				if s.Kind == "table" && i >= at {
					at = i + 1
				}
			}
		}
	}
	out := append([]string{}, parts[:at]...)
	out = append(out, bad)
	out = append(out, parts[at:]...)
	desired = strings.Join(out, ";\n")
	if t.Bool() {
		desired += ";\n"
	}
	return kind, bad, desired, strings.Join(cur, ";\n\n"), good
}

func badStatement(t *engine.T) *engine.Failure {
	d := engine.Pick(t, allDialects)
	kind, bad, desired, current, good := badFile(t, d)
	if _, f := planOf(d, good, current); f != nil {
		t.Label("base not accepted: %s", clipTo(f.Msg, 60))
		return nil // other properties' business
	}
	t.Logf("%v, %s: %s\n-- current schema:\n%s\n-- desired file:\n%s", d, kind, bad, indent(current), indent(desired))
	t.Sample(kind + ": " + desired)
	t.Label("%v %s", d, kind)
	if strings.Contains(desired, ";") {
		t.NonTrivial(desired, current)
	}
	var plan []string
	var err error
	if f := engine.Guard("planning", func() { plan, err = schema.GenerateIdempotentDDLs(mode(d), desired, current) }); f != nil {
		return f
	}
	if err == nil {
		return engine.Fail("accepted-"+kind, "a desired file with an invalid statement is accepted: %s\nplan:\n%s", bad, script(plan))
	}
	if strings.TrimSpace(err.Error()) == "" {
		return engine.Fail("no-message", "refused without a message")
	}
	return nil
}

// badCommand: the command refuses, says so, and executes nothing.
func badCommand(t *engine.T) *engine.Failure {
	k := kits[engine.Pick(t, cliDialects)]
	flavor := engine.Pick(t, k.Flavors)
	s := k.open(flavor)
	defer s.Close()
	cur := k.New(t, flavor)
	st := gen.NewStyle(t)
	text := st.Join(k.Render(st, cur))
	if err := s.Script(text); err != nil {
		t.Label("discarded")
		return nil
	}
	des := k.Mutate(t, cur, t.Range(1, 5))
	st = gen.NewStyle(t)
	var parts []string
	for _, x := range k.Render(st, des) {
		parts = append(parts, x.SQL)
	}
	f := &gen.File{T: t, D: k.D}
	f.Tables = []gen.FileTable{{Name: "ghost", Cols: []string{"id"}}}
	kind, bad := invalidStmt(t, f, []gen.FileStmt{{Kind: "table", Toks: strings.Fields("CREATE TABLE zz ( id integer NOT NULL )")}}, nil)
	at := t.N(len(parts) + 1)
	if kind == "open" {
		at = len(parts)
	}
	parts = append(parts[:at], append([]string{bad}, parts[at:]...)...)
	desired := strings.Join(parts, ";\n") + ";\n"
	t.Logf("%v, %s: %s\n-- database made by:\n%s\n-- desired file:\n%s", k.D, kind, bad, indent(text), indent(desired))
	t.Sample(desired)
	t.NonTrivial(desired)
	before := s.Canon()
	s.ResetLog()
	args := []string{}
	if t.Chance(30) {
		args = append(args, "--dry-run")
	}
	if t.Chance(30) {
		args = append(args, "--skip-drop")
	}
	r := command(t, s, desired, args...)
	if r.Fail != nil {
		return r.Fail
	}
	if r.Code == 0 {
		return engine.Fail("exit-zero", "the command accepts a desired file with an invalid statement: %s\n%s", bad, r)
	}
	if strings.TrimSpace(r.Err) == "" {
		return engine.Fail("no-message", "the command fails without a message on stderr\n%s", r)
	}
	if e := s.Execs(); len(e) > 0 {
		return engine.Fail("executed", "statements were executed:\n%s", script(e))
	}
	if diff := sim.Diff(s.Canon(), before); len(diff) > 0 {
		return engine.Fail("changed", "the schema changed:\n%s", strings.Join(diff, "\n"))
	}
	return nil
}

// badFileName: a desired file that cannot be read.
func badFileName(t *engine.T) *engine.Failure {
	k := kits[engine.Pick(t, cliDialects)]
	flavor := engine.Pick(t, k.Flavors)
	s := k.open(flavor)
	defer s.Close()
	cur := k.New(t, flavor)
	st := gen.NewStyle(t)
	text := st.Join(k.Render(st, cur))
	if err := s.Script(text); err != nil {
		return nil
	}
	before := s.Canon()
	s.ResetLog()
	name := filepath.Join(scratch(), "absent", "x.sql")
	if t.Bool() {
		name = scratch() // a directory
	}
	t.Logf("%v, file %s", k.D, name)
	t.NonTrivial(fmt.Sprint(k.D, text))
	r := commandFile(s, name, "", nil)
	if r.Fail != nil {
		return r.Fail
	}
	if r.Code == 0 || strings.TrimSpace(r.Err) == "" {
		return engine.Fail("unreadable", "a desired file that cannot be read is not refused\n%s", r)
	}
	if e := s.Execs(); len(e) > 0 || len(sim.Diff(s.Canon(), before)) > 0 {
		return engine.Fail("executed", "statements were executed:\n%s", script(e))
	}
	return nil
}

func init() {
	_ = os.Args
	engine.Register(&engine.Check{
		ID:   "C14",
		Rule: "the invalid statement stands among other statements",
		Parts: []engine.Part{
			{Name: "statement", Quick: 60000, Thorough: 1500000, Run: badStatement},
			{Name: "command", Quick: 1500, Thorough: 40000, Run: badCommand},
			{Name: "file", Quick: 100, Thorough: 2000, Run: badFileName},
		},
		Setup: cliSetup, Teardown: cliTeardown,
	})
}
