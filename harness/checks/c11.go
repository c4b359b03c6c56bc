package checks

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

// situation is a database and a desired file for it.
type situation struct {
	k      *kit
	s      db
	cur    *gen.Schema
	des    *gen.Schema
	stmts  []gen.Statement
	text   string
	before map[string]string
}

// situate makes a situation. nil: discarded.
func situate(t *engine.T, d sim.Dialect) *situation {
	k := kits[d]
	flavor := engine.Pick(t, k.Flavors)
	s := k.open(flavor)
	var cur *gen.Schema
	if t.Chance(90) {
		cur = k.New(t, flavor)
		if err := s.Script(gen.NewStyle(t).Join(k.Render(gen.NewStyle(t), cur))); err != nil {
			s.Close()
			t.Label("discarded")
			return nil
		}
	}
	des := cur
	switch {
	case cur == nil:
		des = k.New(t, flavor)
	case t.Chance(85):
		des = k.Mutate(t, cur, t.Range(1, 6))
	}
	st := gen.NewStyle(t)
	sit := &situation{k: k, s: s, cur: cur, des: des, before: s.Canon()}
	sit.stmts = k.Render(st, des)
	sit.text = st.Join(sit.stmts)
	if q, ok := s.(*sqliteDB); ok {
		q.fill(t, cur)
	}
	s.ResetLog()
	t.Logf("%v %s\n-- current schema:\n%s\n-- desired file:\n%s", d, flavor, canonText(sit.before), indent(sit.text))
	return sit
}

func canonText(m map[string]string) string {
	var out []string
	for _, k := range keysOf(m) {
		out = append(out, k+": "+m[k])
	}
	return indent(strings.Join(out, "\n"))
}

// content is all a SQLite file holds.
func (q *sqliteDB) content() []byte {
	b, err := os.ReadFile(q.path)
	if err != nil && !os.IsNotExist(err) {
		engine.Bug("%v", err)
	}
	return b
}

// commits is the number of committed transactions of a SQLite file.
func commits(b []byte) uint32 {
	if len(b) < 28 {
		return 0
	}
	return binary.BigEndian.Uint32(b[24:28])
}

func listing(head string, plan []string) string {
	var sb strings.Builder
	sb.WriteString(head + "\n")
	for _, p := range plan {
		sb.WriteString(p + ";\n")
	}
	return sb.String()
}

// readOnly: the command sends nothing that can modify the database.
func readOnly(t *engine.T, s db, desired, what string, before map[string]string, args ...string) (*cmdResult, *engine.Failure) {
	var file []byte
	q, isFile := s.(*sqliteDB)
	if isFile {
		file = q.content()
	}
	s.ResetLog()
	r := command(t, s, desired, args...)
	if r.Fail != nil {
		return r, r.Fail
	}
	if r.Code != 0 {
		return r, engine.Fail("fails", "%s fails\n%s", what, r)
	}
	if isFile && string(q.content()) != string(file) {
		return r, engine.Fail("writes", "%s changes the database file", what)
	}
	if m, ok := s.(simDB); ok {
		for _, e := range m.Log {
			if e.Op == "exec" || e.Op == "query" && !sim.ReadOnly(e.SQL) {
				return r, engine.Fail("writes", "%s sends: %s", what, e.SQL)
			}
		}
	}
	if d := sim.Diff(s.Canon(), before); len(d) > 0 {
		return r, engine.Fail("writes", "%s changes the schema:\n%s", what, strings.Join(d, "\n"))
	}
	return r, nil
}

func dryRun(d sim.Dialect) func(t *engine.T) *engine.Failure {
	return func(t *engine.T) *engine.Failure {
		sit := situate(t, d)
		if sit == nil {
			return nil
		}
		s := sit.s
		defer s.Close()
		// --export
		dump, err, f := s.Dump()
		if f != nil || err != nil {
			return nil // C10's business
		}
		args := []string{"--export"}
		if t.Chance(20) {
			args = append(args, "--dry-run")
		}
		if t.Chance(20) {
			args = append(args, "--skip-drop")
		}
		ex, f := readOnly(t, s, sit.text, "--export", sit.before, args...)
		if f != nil {
			return f
		}
		want := dump + ";\n"
		if len(objects(sit.before)) == 0 {
			want = "-- No table exists --\n"
		}
		if d == sim.MSSQL { // indexes come in any order
			if len(ex.Out) != len(want) {
				return engine.Fail("export", "--export does not print the schema as read\nwant:\n%s\ngot:\n%s", indent(want), indent(ex.Out))
			}
		} else if ex.Out != want {
			return engine.Fail("export", "--export does not print the schema as read\nwant:\n%s\ngot:\n%s", indent(want), indent(ex.Out))
		}
		// --dry-run
		p := plan(s, sit.text)
		if p.Fail != nil || p.PlanErr != nil {
			return nil
		}
		t.Logf("-- plan:\n%s", script(p.Plan))
		t.Evals(2)
		if len(p.Plan) > 1 {
			t.NonTrivial(p.Dump, sit.text)
		}
		t.Sample("desired: " + clip(sit.text) + "\nplan: " + clip(strings.Join(p.Plan, "; ")))
		want = listing("-- dry run --", p.Plan)
		if len(p.Plan) == 0 {
			want = "-- Nothing is modified --\n"
		}
		dry, f := readOnly(t, s, sit.text, "--dry-run", sit.before, "--dry-run")
		if f != nil {
			return f
		}
		if dry.Out != want {
			return engine.Fail("dry-run", "--dry-run does not print the plan\nwant:\n%s\ngot:\n%s", indent(want), indent(dry.Out))
		}
		// apply
		var at uint32
		if q, ok := s.(*sqliteDB); ok {
			at = commits(q.content())
		}
		s.ResetLog()
		r := command(t, s, sit.text)
		if r.Fail != nil {
			return r.Fail
		}
		if r.Code != 0 {
			return nil // a statement was refused: C09 and C13
		}
		want = strings.Replace(dry.Out, "-- dry run --\n", "-- Apply --\n", 1)
		if r.Out != want {
			return engine.Fail("apply-prints", "a run prints something else than --dry-run\nwant:\n%s\ngot:\n%s", indent(want), indent(r.Out))
		}
		switch x := s.(type) {
		case simDB:
			var ops []string
			var execs []string
			for _, e := range x.Log {
				switch e.Op {
				case "exec":
					execs = append(execs, e.SQL)
					if !e.Tx {
						ops = append(ops, "exec outside of the transaction")
					}
				case "begin", "commit", "rollback":
					ops = append(ops, e.Op)
				case "query":
					if !sim.ReadOnly(e.SQL) {
						ops = append(ops, e.SQL)
					}
				}
			}
			if got := strings.Join(ops, ", "); got != "begin, commit" && (len(p.Plan) > 0 || got != "") {
				return engine.Fail("transaction", "a run is not one committed transaction: %s", got)
			}
			if strings.Join(execs, "\x00") != strings.Join(p.Plan, "\x00") {
				return engine.Fail("apply-executes", "a run executes something else than --dry-run prints\nprinted:\n%s\nexecuted:\n%s", script(p.Plan), script(execs))
			}
		case *sqliteDB:
			if n := commits(x.content()) - at; n > 1 || n == 1 && len(p.Plan) == 0 {
				return engine.Fail("transaction", "a run of %d statements makes %d transactions", len(p.Plan), n)
			}
		}
		// what is executed by hand as printed gives the same schema
		after := s.Canon()
		hand := sit.k.open(flavorOf(s))
		defer hand.Close()
		if err := hand.Script(gen.NewStyle(t).Join(sit.k.Render(gen.NewStyle(t), orEmpty(sit.cur)))); err == nil {
			if err := hand.Script(strings.Join(p.Plan, ";\n")); err != nil {
				return engine.Fail("printed", "the printed statements cannot be executed: %v", err)
			}
			if df := sim.Diff(hand.Canon(), after); len(df) > 0 {
				return engine.Fail("printed", "executing the printed statements gives another schema:\n%s", strings.Join(df, "\n"))
			}
		}
		return nil
	}
}

func orEmpty(s *gen.Schema) *gen.Schema {
	if s == nil {
		return &gen.Schema{}
	}
	return s
}

func flavorOf(s db) string {
	if m, ok := s.(simDB); ok {
		return m.Flavor
	}
	return ""
}

func objects(m map[string]string) []string {
	var out []string
	for _, k := range keysOf(m) {
		if strings.HasPrefix(k, "table ") || strings.HasPrefix(k, "view ") || strings.HasPrefix(k, "trigger ") {
			out = append(out, k)
		}
	}
	return out
}

// skipDrop: nothing is dropped, the rest is executed.
func skipDrop(d sim.Dialect) func(t *engine.T) *engine.Failure {
	return func(t *engine.T) *engine.Failure {
		sit := situate(t, d)
		if sit == nil {
			return nil
		}
		s := sit.s
		defer s.Close()
		p := plan(s, sit.text)
		if p.Fail != nil || p.PlanErr != nil {
			return nil
		}
		t.Logf("-- plan:\n%s", script(p.Plan))
		drops, rest := 0, []string{}
		var lines []string
		for _, q := range p.Plan {
			if sim.HasWord(d, q, "drop") {
				drops++
				lines = append(lines, "-- Skipped: "+q)
			} else {
				rest = append(rest, q)
				lines = append(lines, q)
			}
		}
		if drops > 0 || strings.Contains(strings.ToLower(strings.Join(p.Plan, " ")), "drop") {
			t.NonTrivial(p.Dump, sit.text)
		}
		t.Label("%d dropping statements", drops)
		t.Sample("plan: " + clip(strings.Join(p.Plan, "; ")))
		want := listing("-- dry run --", lines)
		if len(lines) == 0 {
			want = "-- Nothing is modified --\n"
		}
		dry, f := readOnly(t, s, sit.text, "--dry-run --skip-drop", sit.before, "--dry-run", "--skip-drop")
		if f != nil {
			return f
		}
		if dry.Out != want {
			return engine.Fail("dry-run", "--dry-run --skip-drop prints something else\nwant:\n%s\ngot:\n%s", indent(want), indent(dry.Out))
		}
		var rows map[string][]string
		if q, ok := s.(*sqliteDB); ok {
			rows = q.allRows(sit.cur)
		}
		s.ResetLog()
		r := command(t, s, sit.text, "--skip-drop")
		if r.Fail != nil {
			return r.Fail
		}
		after := s.Canon()
		byServer := map[string]bool{} // implicit keys make place for explicit ones
		for _, e := range s.Effects() {
			if e.Verb == "drop" && e.Via == "server" {
				byServer[e.Key] = true
			}
		}
		for k := range sit.before {
			if _, ok := after[k]; !ok && isObject(k) && !byServer[k] {
				return engine.Fail("dropped", "%s is gone after a run with --skip-drop", k)
			}
		}
		want = strings.Replace(dry.Out, "-- dry run --\n", "-- Apply --\n", 1)
		if r.Code == 0 && r.Out != want || r.Code != 0 && !strings.HasPrefix(want, r.Out) {
			return engine.Fail("prints", "--skip-drop prints something else than with --dry-run\nwant:\n%s\ngot:\n%s", indent(want), indent(r.Out))
		}
		switch x := s.(type) {
		case simDB:
			execs := x.Execs()
			if r.Code != 0 {
				if len(execs) > 0 && len(execs) <= len(rest) {
					rest = rest[:len(execs)] // refused for what was skipped
				}
				t.Label("stopped by a refused statement")
			}
			if strings.Join(execs, "\x00") != strings.Join(rest, "\x00") {
				return engine.Fail("executes", "--skip-drop executes something else\nwant:\n%s\ngot:\n%s", script(rest), script(execs))
			}
		case *sqliteDB:
			if now := x.allRows(sit.cur); fmt.Sprint(now) != fmt.Sprint(rows) {
				return engine.Fail("data", "data changed by a run with --skip-drop:\nbefore %v\nafter  %v", rows, now)
			}
			hand := newSQLite()
			defer hand.Close()
			if r.Code == 0 && hand.Script(gen.NewStyle(t).Join(sit.k.Render(gen.NewStyle(t), orEmpty(sit.cur)))) == nil {
				if err := hand.Script(strings.Join(rest, ";\n")); err != nil {
					engine.Bug("%v", err)
				}
				if df := sim.Diff(hand.Canon(), after); len(df) > 0 {
					return engine.Fail("executes", "--skip-drop does not do the rest:\n%s", strings.Join(df, "\n"))
				}
			}
		}
		return nil
	}
}

func (q *sqliteDB) allRows(sc *gen.Schema) map[string][]string {
	out := map[string][]string{}
	if sc == nil {
		return out
	}
	for _, tb := range sc.Tables {
		for _, c := range tb.Cols {
			out[tb.Name+"."+c.Name] = q.column(tb.Name, c.Name)
		}
	}
	return out
}

// refused: a statement of the plan is refused by the database.
func refused(d sim.Dialect) func(t *engine.T) *engine.Failure {
	return func(t *engine.T) *engine.Failure {
		sit := situate(t, d)
		if sit == nil {
			return nil
		}
		s := sit.s
		defer s.Close()
		text := sit.text
		m, isSim := s.(simDB)
		if !isSim || t.Chance(30) {
			// a statement only the database can know to be wrong
			bad := engine.Pick(t, []string{"CREATE TABLE zz_bad (a integer, a integer)", "CREATE TABLE zz_bad (a integer); CREATE INDEX zz_i ON zz_bad (nocol)", "CREATE TABLE zz_bad (a integer, B integer, c integer, b integer)"})
			var parts []string
			for _, x := range sit.stmts {
				parts = append(parts, x.SQL)
			}
			at := t.N(len(parts) + 1)
			parts = append(parts[:at], append([]string{bad}, parts[at:]...)...)
			text = strings.Join(parts, ";\n")
			t.Logf("-- refused: %s", bad)
		}
		p := plan(s, text)
		if p.Fail != nil || p.PlanErr != nil || len(p.Plan) == 0 {
			return nil
		}
		fails := -1
		s.ResetLog()
		commit := false
		if isSim && text == sit.text {
			fails = t.Range(0, len(p.Plan)+1)
			switch {
			case fails == 0:
				m.FailBegin = true
			case fails > len(p.Plan):
				m.FailCommit = true
				commit = true
			default:
				m.FailExec = fails
			}
		}
		t.Logf("-- plan (statement %d fails):\n%s", fails, script(p.Plan))
		t.Sample(fmt.Sprintf("failing %d of: %s", fails, clip(strings.Join(p.Plan, "; "))))
		if len(p.Plan) > 1 {
			t.NonTrivial(p.Dump, text, fmt.Sprint(fails))
		}
		var file []byte
		var rows string
		q, isFile := s.(*sqliteDB)
		if isFile {
			file = q.content()
			rows = fmt.Sprint(q.allRows(sit.cur))
		}
		r := command(t, s, text)
		if r.Fail != nil {
			return r.Fail
		}
		if r.Code == 0 {
			return engine.Fail("exit-zero", "a refused statement goes unreported\n%s", r)
		}
		if strings.TrimSpace(r.Err) == "" {
			return engine.Fail("no-message", "a refused statement is not reported on stderr\n%s", r)
		}
		if isFile {
			if d := sim.Diff(s.Canon(), sit.before); len(d) > 0 {
				return engine.Fail("not-undone", "the schema changed although a statement failed:\n%s", strings.Join(d, "\n"))
			}
			if got := fmt.Sprint(q.allRows(sit.cur)); got != rows {
				return engine.Fail("not-undone", "the data changed although a statement failed:\nbefore %s\nafter  %s", rows, got)
			}
			if commits(file) != commits(q.content()) {
				return engine.Fail("not-undone", "a transaction was committed although a statement failed")
			}
			return nil
		}
		var ops []string
		failed := false
		n := 0
		for _, e := range m.Log {
			switch e.Op {
			case "exec":
				n++
				if failed {
					return engine.Fail("goes-on", "after a refused statement, this is executed: %s", e.SQL)
				}
				if n > len(p.Plan) || e.SQL != p.Plan[n-1] {
					return engine.Fail("order", "statement %d executed is not that of the plan: %s", n, e.SQL)
				}
				failed = e.Err != ""
			case "begin", "commit", "rollback":
				ops = append(ops, e.Op)
			}
		}
		got := strings.Join(ops, ", ")
		switch {
		case fails == 0:
			if got != "begin" || n > 0 {
				return engine.Fail("transaction", "BEGIN failed, but the run goes on: %s, %d statements", got, n)
			}
		case commit:
			if !strings.HasPrefix(got, "begin, commit") {
				return engine.Fail("transaction", "%s", got)
			}
		case got != "begin, rollback":
			return engine.Fail("transaction", "a statement was refused, but the transaction went: %s", got)
		}
		if d != sim.MySQL {
			if df := sim.Diff(s.Canon(), sit.before); len(df) > 0 {
				return engine.Fail("not-undone", "the schema changed although the run failed:\n%s", strings.Join(df, "\n"))
			}
		}
		return nil
	}
}

// unreadable: reading the current schema fails.
func unreadable(d sim.Dialect) func(t *engine.T) *engine.Failure {
	return func(t *engine.T) *engine.Failure {
		sit := situate(t, d)
		if sit == nil {
			return nil
		}
		s := sit.s
		defer s.Close()
		m, isSim := s.(simDB)
		args := []string{}
		switch t.N(4) {
		case 0:
			args = append(args, "--export")
		case 1:
			args = append(args, "--dry-run")
		}
		var r *cmdResult
		if isSim {
			if p := plan(s, sit.text); p.Fail != nil || p.PlanErr != nil {
				return nil
			}
			total := 0
			for _, e := range m.Log {
				if e.Op == "query" {
					total++
				}
			}
			s.ResetLog()
			if total == 0 {
				return nil
			}
			m.FailQuery = t.Range(1, total)
			t.Logf("-- query %d of %d fails, %v", m.FailQuery, total, args)
			t.NonTrivial(canonText(sit.before), fmt.Sprint(m.FailQuery, args))
			r = command(t, s, sit.text, args...)
		} else {
			q := s.(*sqliteDB)
			q.raw.Close()
			good := q.content()
			switch t.N(2) {
			case 0: // a damaged file
				if len(good) < 200 {
					q.open()
					return nil
				}
				if err := os.WriteFile(q.path, append([]byte("no database at all "), good[19:]...), 0o644); err != nil {
					engine.Bug("%v", err)
				}
				t.NonTrivial(sit.text)
				r = runProcess(toolPath(d, false), append(args, q.path), nil, sit.text)
			case 1:
				t.NonTrivial(sit.text)
				r = runProcess(toolPath(d, false), append(args, filepath.Join(cliDir, "absent", "x.db")), nil, sit.text)
			}
			os.WriteFile(q.path, good, 0o644)
			q.open()
		}
		t.Sample(r.String())
		if r.Fail != nil {
			return r.Fail
		}
		if r.Code == 0 {
			return engine.Fail("exit-zero", "an error while reading the current schema goes unreported\n%s", r)
		}
		if strings.TrimSpace(r.Err) == "" {
			return engine.Fail("no-message", "an error while reading the current schema is not reported on stderr\n%s", r)
		}
		if isSim {
			for _, e := range m.Log {
				if e.Op == "exec" {
					return engine.Fail("goes-on", "reading the schema failed, but this is executed: %s", e.SQL)
				}
			}
			if df := sim.Diff(s.Canon(), sit.before); len(df) > 0 {
				return engine.Fail("changed", "%s", strings.Join(df, "\n"))
			}
		}
		return nil
	}
}

func perDialect(prefix string, quick, thorough int, f func(sim.Dialect) func(*engine.T) *engine.Failure) []engine.Part {
	var ps []engine.Part
	for _, d := range cliDialects {
		ps = append(ps, engine.Part{Name: prefix + d.String(), Quick: quick, Thorough: thorough, Run: f(d)})
	}
	return ps
}

func init() {
	engine.Register(&engine.Check{ID: "C11", Rule: "the plan has several statements",
		Parts: perDialect("", 1500, 60000, dryRun), Setup: cliSetup, Teardown: cliTeardown})
	engine.Register(&engine.Check{ID: "C12", Rule: "the plan contains the word drop",
		Parts: perDialect("", 2500, 100000, skipDrop), Setup: cliSetup, Teardown: cliTeardown})
	engine.Register(&engine.Check{ID: "C13", Rule: "the plan has several statements, or a catalog query fails",
		Parts: append(perDialect("statement-", 2500, 100000, refused), perDialect("catalog-", 1500, 50000, unreadable)...), Setup: cliSetup, Teardown: cliTeardown})
}
