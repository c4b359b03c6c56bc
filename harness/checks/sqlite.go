package checks

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/sqlite3"
	sqlitedrv "github.com/mattn/go-sqlite3"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

// sqliteDB is a real SQLite database file.
type sqliteDB struct {
	path    string
	raw     *sql.DB // the check's own access
	execs   []string
	effects []sim.Effect
	last    map[string]string
	rows    map[string][]string // rows put in by BeforeStep
}

var sqliteDir string
var sqliteN int

func newSQLite() *sqliteDB {
	if sqliteDir == "" {
		base := "/dev/shm"
		if st, err := os.Stat(base); err != nil || !st.IsDir() {
			base = ""
		}
		d, err := os.MkdirTemp(base, "verif-sqlite-")
		if err != nil {
			if d, err = os.MkdirTemp("", "verif-sqlite-"); err != nil {
				engine.Bug("%v", err)
			}
		}
		sqliteDir = d
	}
	sqliteN++
	s := &sqliteDB{path: filepath.Join(sqliteDir, fmt.Sprintf("%d.db", sqliteN))}
	s.open()
	return s
}

func sqliteTeardown() {
	if sqliteDir != "" {
		os.RemoveAll(sqliteDir)
	}
}

func (s *sqliteDB) dsn() string { return s.path + "?_synchronous=OFF&_journal_mode=MEMORY" }

func (s *sqliteDB) open() {
	var err error
	if s.raw, err = sql.Open("sqlite3", s.dsn()); err != nil {
		engine.Bug("%v", err)
	}
	s.raw.SetMaxOpenConns(1)
}

func (s *sqliteDB) Dialect() sim.Dialect { return sim.SQLite }
func (s *sqliteDB) ResetLog()            { s.execs, s.effects, s.last = nil, nil, s.Canon() }
func (s *sqliteDB) Execs() []string      { return s.execs }
func (s *sqliteDB) Effects() []sim.Effect {
	return s.effects
}
func (s *sqliteDB) Close() {
	s.raw.Close()
	os.Remove(s.path)
}
func (s *sqliteDB) Empty() db { return newSQLite() }
func (s *sqliteDB) Fork() db {
	n := newSQLite()
	n.raw.Close()
	b, err := os.ReadFile(s.path)
	if err != nil && !os.IsNotExist(err) {
		engine.Bug("%v", err)
	}
	if err == nil {
		os.WriteFile(n.path, b, 0o644)
	}
	n.open()
	return n
}

func (s *sqliteDB) Script(text string) error {
	stmts, err := sim.SplitStatements(sim.SQLite, text)
	if err != nil {
		return err
	}
	for _, q := range stmts {
		if _, err := s.raw.Exec(q); err != nil {
			return fmt.Errorf("%v: %s", err, q)
		}
	}
	return nil
}

type queryFn func(q string) [][]string

func (s *sqliteDB) query(q string) [][]string {
	rows, err := s.raw.Query(q)
	if err != nil {
		engine.Bug("%v: %s", err, q)
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	var out [][]string
	for rows.Next() {
		v := make([]interface{}, len(cols))
		for i := range v {
			v[i] = new(interface{})
		}
		if err := rows.Scan(v...); err != nil {
			engine.Bug("%v", err)
		}
		var r []string
		for i := range v {
			r = append(r, valText(*(v[i].(*interface{}))))
		}
		out = append(out, r)
	}
	return out
}

func valText(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		return string(v)
	case string:
		return v
	}
	return fmt.Sprintf("%v", v)
}

func sq(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (s *sqliteDB) Canon() map[string]string { return sqliteCanon(s.query) }

// sqliteCanon reads the schema from SQLite itself.
func sqliteCanon(query queryFn) map[string]string {
	m := map[string]string{}
	for _, r := range query("select type, name, sql from sqlite_master where name not like 'sqlite~_%' escape '~'") {
		switch r[0] {
		case "table":
			cols, opts, err := sim.SQLiteTable(r[2])
			if err != nil {
				engine.Bug("stored table %q: %v", r[2], err)
			}
			m["table "+r[1]] = opts
			uniq := map[string]bool{}
			for _, l := range query("select name, origin from pragma_index_list(" + sq(r[1]) + ") where origin = 'u'") {
				for _, c := range query("select name from pragma_index_info(" + sq(l[0]) + ")") {
					uniq[c[0]] = true
				}
			}
			for _, c := range query("select name, type, \"notnull\", coalesce(dflt_value, '-'), pk from pragma_table_info(" + sq(r[1]) + ")") {
				ty := strings.ReplaceAll(strings.ToLower(c[1]), " ", "")
				d := c[3]
				if !strings.HasPrefix(d, "'") {
					d = strings.ToLower(d)
				}
				m["column "+r[1]+"."+c[0]] = fmt.Sprintf("%s notnull=%s default %s pk=%s unique=%v %s", ty, c[2], d, c[4], uniq[c[0]], cols[c[0]])
			}
		case "view":
			def, err := sim.SQLiteView(r[2])
			if err != nil {
				engine.Bug("stored view %q: %v", r[2], err)
			}
			m["view "+r[1]] = def
		default:
			m[r[0]+" "+r[1]] = r[2]
		}
	}
	return m
}

// sqliteTarget is the adapter with a handle for executing that records.
type sqliteTarget struct {
	adapter.Database
	ex *sql.DB
}

func (t *sqliteTarget) DB() *sql.DB { return t.ex }
func (t *sqliteTarget) Close() error {
	t.ex.Close()
	return t.Database.Close()
}

func (s *sqliteDB) adapter() (adapter.Database, error) {
	a, err := sqlite3.NewDatabase(adapter.Config{DbName: s.dsn()})
	if err != nil {
		return nil, err
	}
	return &sqliteTarget{a, sql.OpenDB(&sqliteConnector{s})}, nil
}

func (s *sqliteDB) Tool(desired string, exec, skipDrop bool) *run {
	return runTool(sim.SQLite, s.adapter, desired, exec, skipDrop)
}
func (s *sqliteDB) Dump() (string, error, *engine.Failure) { return dumpText(s.adapter) }

type sqliteConnector struct{ s *sqliteDB }

func (c *sqliteConnector) Driver() driver.Driver { return &sqlitedrv.SQLiteDriver{} }
func (c *sqliteConnector) Connect(context.Context) (driver.Conn, error) {
	k, err := (&sqlitedrv.SQLiteDriver{}).Open(c.s.dsn())
	if err != nil {
		return nil, err
	}
	return &sqliteConn{k.(*sqlitedrv.SQLiteConn), c.s}, nil
}

type sqliteConn struct {
	*sqlitedrv.SQLiteConn
	s *sqliteDB
}

func (c *sqliteConn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	c.s.execs = append(c.s.execs, q)
	r, err := c.SQLiteConn.ExecContext(ctx, q, a)
	if err == nil {
		now := sqliteCanon(c.query)
		n := len(c.s.execs)
		for k, v := range now {
			if o, ok := c.s.last[k]; !ok {
				c.s.effects = append(c.s.effects, sim.Effect{Stmt: n, Verb: "create", Key: k})
			} else if o != v {
				c.s.effects = append(c.s.effects, sim.Effect{Stmt: n, Verb: "alter", Key: k})
			}
		}
		for k := range c.s.last {
			if _, ok := now[k]; !ok {
				c.s.effects = append(c.s.effects, sim.Effect{Stmt: n, Verb: "drop", Key: k})
			}
		}
		sort.SliceStable(c.s.effects, func(i, j int) bool {
			a, b := c.s.effects[i], c.s.effects[j]
			return a.Stmt < b.Stmt || a.Stmt == b.Stmt && a.Key < b.Key
		})
		c.s.last = now
	}
	return r, err
}

func (c *sqliteConn) query(q string) [][]string {
	rows, err := c.SQLiteConn.QueryContext(context.Background(), q, nil)
	if err != nil {
		engine.Bug("%v: %s", err, q)
	}
	defer rows.Close()
	v := make([]driver.Value, len(rows.Columns()))
	var out [][]string
	for {
		if err := rows.Next(v); err == io.EOF {
			return out
		} else if err != nil {
			engine.Bug("%v", err)
		}
		var r []string
		for _, x := range v {
			r = append(r, valText(x))
		}
		out = append(out, r)
	}
}

func quoteID(s string) string { return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\"" }

// fill puts rows into the tables.
func (s *sqliteDB) fill(t *engine.T, sc *gen.Schema) {
	if sc == nil {
		return
	}
	for _, tb := range sc.Tables {
		for i := t.N(3); i > 0; i-- {
			var cs, vs []string
			for _, c := range tb.Cols {
				v := fmt.Sprint(10*len(cs) + i + sqliteN%7)
				switch c.Type {
				case "text", "varchar", "char", "blob":
					v = sq(fmt.Sprintf("v%d%s", i, c.Name))
				case "boolean":
					v = "1"
				}
				cs, vs = append(cs, quoteID(c.Name)), append(vs, v)
			}
			s.raw.Exec("insert or ignore into " + quoteID(tb.Name) + " (" + strings.Join(cs, ",") + ") values (" + strings.Join(vs, ",") + ")")
		}
	}
	s.rows = map[string][]string{}
	for _, tb := range sc.Tables {
		for _, c := range tb.Cols {
			s.rows[tb.Name+"\x00"+c.Name] = s.column(tb.Name, c.Name)
		}
	}
}

func (s *sqliteDB) column(tb, col string) []string {
	var out []string
	for _, r := range s.query("select " + quoteID(col) + " from " + quoteID(tb)) {
		out = append(out, r[0])
	}
	sort.Strings(out)
	return out
}

// keptRows: the values of kept columns are what they were.
func keptRows(sp *step) *engine.Failure {
	s := sp.Srv.(*sqliteDB)
	if sp.Prev == nil || sp.R.PlanErr != nil || sp.R.ExecErr != nil {
		return nil
	}
	for _, tb := range sp.Des.Tables {
		o := sp.Prev.Table(tb.Name)
		if o == nil {
			continue
		}
		for _, c := range tb.Cols {
			if o.Col(c.Name) == nil {
				continue
			}
			was, now := s.rows[tb.Name+"\x00"+c.Name], s.column(tb.Name, c.Name)
			if strings.Join(was, "\x00") != strings.Join(now, "\x00") {
				return engine.Fail("data-lost", "column %s of table %s held %q, now %q", c.Name, tb.Name, was, now)
			}
		}
	}
	return nil
}

func init() {
	kits[sim.SQLite] = &kit{D: sim.SQLite, Flavors: []string{""},
		Open:   func(string) db { return newSQLite() },
		New:    gen.SlSchema,
		Mutate: gen.SlMutate,
		Render: gen.SlRender,
		BeforeStep: func(sp *step) {
			sp.Srv.(*sqliteDB).fill(sp.T, sp.Prev)
		},
	}
	engine.Register(&engine.Check{ID: "C04", Assumptions: []string{"the SQLite library bundled with the driver stands for SQLite"},
		Rule:     "a case is a history of 2-6 desired files applied to one real SQLite database file holding rows; after every step the schema SQLite reports must equal that of a fresh database which executed the file, and the values of kept columns must be unchanged; non-trivial: a step on an existing schema whose plan is not empty, distinct by (dumped schema, file)",
		Teardown: sqliteTeardown,
		Parts: []engine.Part{
			{Name: "history", Quick: 12000, Thorough: 120000, Run: func(t *engine.T) *engine.Failure {
				return history(kits[sim.SQLite], 6, false, func(sp *step) *engine.Failure {
					if f := converges(sp); f != nil {
						return f
					}
					return keptRows(sp)
				})(t)
			}},
		}})
}
