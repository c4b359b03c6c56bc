// Package checks decides the properties.
package checks

import (
	"fmt"
	"os"
	"strings"

	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/mssql"
	"github.com/k0kubun/sqldef/adapter/mysql"
	"github.com/k0kubun/sqldef/adapter/postgres"
	"github.com/k0kubun/sqldef/schema"

	"verif.local/fakedrv"
	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

// current is the server the in-process drivers connect to.
var current *sim.Server

func init() {
	fakedrv.Hook = func(drv, dsn string) (fakedrv.Backend, error) {
		if current == nil {
			return nil, fmt.Errorf("no simulated server")
		}
		return current.Connect(), nil
	}
}

func mode(d sim.Dialect) schema.GeneratorMode {
	switch d {
	case sim.MySQL:
		return schema.GeneratorModeMysql
	case sim.Postgres:
		return schema.GeneratorModePostgres
	case sim.MSSQL:
		return schema.GeneratorModeMssql
	}
	return schema.GeneratorModeSQLite3
}

func open(s *sim.Server) (adapter.Database, error) {
	current = s
	c := adapter.Config{DbName: s.DB, User: "u", Password: "p", Host: "localhost", Port: 3306}
	switch s.D {
	case sim.MySQL:
		return mysql.NewDatabase(c)
	case sim.Postgres:
		return postgres.NewDatabase(c)
	case sim.MSSQL:
		return mssql.NewDatabase(c)
	}
	return nil, fmt.Errorf("no adapter")
}

// run is one run of the tool's library against a simulated server.
type run struct {
	Dump    string
	Plan    []string
	PlanErr error // from reading the current schema or planning
	ExecErr error
	Fail    *engine.Failure // crash
}

var devnull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func silently(f func()) {
	old := os.Stdout
	os.Stdout = devnull
	defer func() { os.Stdout = old }()
	f()
}

// db is a database the tool can be run against.
type db interface {
	Dialect() sim.Dialect
	Canon() map[string]string // the schema: object key -> definition
	ResetLog()
	Execs() []string       // statements executed since ResetLog
	Effects() []sim.Effect // what they did
	Tool(desired string, exec, skipDrop bool) *run
	Dump() (string, error, *engine.Failure)
	Fork() db  // independent copy
	Empty() db // new empty database of the same kind, taking exported text
	Script(text string) error
	Close()
}

type simDB struct{ *sim.Server }

func (s simDB) Dialect() sim.Dialect                   { return s.D }
func (s simDB) Canon() map[string]string               { return s.S.Canon(s.D) }
func (s simDB) Effects() []sim.Effect                  { return s.Server.Effects }
func (s simDB) Dump() (string, error, *engine.Failure) { return dumpOf(s.Server) }
func (s simDB) Close()                                 {}
func (s simDB) Tool(desired string, exec, skipDrop bool) *run {
	return runTool(s.D, func() (adapter.Database, error) { return open(s.Server) }, desired, exec, skipDrop)
}
func (s simDB) Fork() db {
	n := server(s.D, s.Flavor)
	n.S = s.S.Clone()
	return simDB{n}
}
func (s simDB) Empty() db {
	n := server(s.D, s.Flavor)
	n.LaterRefs = true
	return simDB{n}
}

// plan reads the current schema and plans; apply executes as well.
func plan(s db, desired string) *run  { return s.Tool(desired, false, false) }
func apply(s db, desired string) *run { return s.Tool(desired, true, false) }

func runTool(d sim.Dialect, open func() (adapter.Database, error), desired string, exec, skipDrop bool) *run {
	r := &run{}
	r.Fail = engine.Guard("the tool", func() {
		silently(func() {
			db, err := open()
			if err != nil {
				r.PlanErr = err
				return
			}
			defer db.Close()
			r.Dump, err = adapter.DumpDDLs(db)
			if err != nil {
				r.PlanErr = fmt.Errorf("reading the current schema: %v", err)
				return
			}
			r.Plan, err = schema.GenerateIdempotentDDLs(mode(d), desired, r.Dump)
			if err != nil {
				r.PlanErr = err
				r.Plan = nil
				return
			}
			if exec && len(r.Plan) > 0 {
				r.ExecErr = adapter.RunDDLs(db, r.Plan, skipDrop)
			}
		})
	})
	return r
}

func dumpOf(s *sim.Server) (string, error, *engine.Failure) {
	return dumpText(func() (adapter.Database, error) { return open(s) })
}

func dumpText(open func() (adapter.Database, error)) (string, error, *engine.Failure) {
	var out string
	var err error
	f := engine.Guard("reading the schema", func() {
		silently(func() {
			var db adapter.Database
			db, err = open()
			if err != nil {
				return
			}
			defer db.Close()
			out, err = adapter.DumpDDLs(db)
		})
	})
	return out, err, f
}

// kit is what a dialect brings to the generic checks.
type kit struct {
	D       sim.Dialect
	Flavors []string
	Open    func(flavor string) db // nil: a simulated server
	New     func(t *engine.T, flavor string) *gen.Schema
	Mutate  func(t *engine.T, cur *gen.Schema, steps int) *gen.Schema
	Render  func(st *gen.Style, s *gen.Schema) []gen.Statement
	// BeforeStep may put data into the database.
	BeforeStep func(sp *step)
}

var kits = map[sim.Dialect]*kit{}

func server(d sim.Dialect, flavor string) *sim.Server { return sim.NewServer(d, "simdb", flavor) }

func (k *kit) open(flavor string) db {
	if k.Open != nil {
		return k.Open(flavor)
	}
	return simDB{server(k.D, flavor)}
}

// fresh executes a script on an empty server: the reference for what a
// desired file describes.
func (k *kit) fresh(t *engine.T, flavor, script string) db {
	s := k.open(flavor)
	if err := s.Script(script); err != nil {
		if os.Getenv("VERIF_STRICT") != "" {
			engine.Bug("generated schema is not accepted by the server model: %v\n%s", err, script)
		}
		t.Label("discarded: %s", strings.SplitN(err.Error(), ":", 2)[0])
		s.Close()
		return nil
	}
	return s
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}

func script(lines []string) string {
	if len(lines) == 0 {
		return "    (nothing)"
	}
	return indent(strings.Join(lines, ";\n") + ";")
}
