package sim

import (
	"fmt"
	"strings"
)

// Entry is one request a server received.
type Entry struct {
	Op  string // query exec begin commit rollback open close
	SQL string
	Err string
	Tx  bool
}

// Server is a simulated database server holding one database.
type Server struct {
	D       Dialect
	DB      string
	Flavor  string // 5.7 or 8.0 for MySQL
	S       *State
	Log     []Entry
	Effects []Effect
	// FailExec / FailQuery: the n-th (1-based) exec / query fails. FailBegin/FailCommit likewise.
	FailExec, FailQuery   int
	FailBegin, FailCommit bool
	// LaterRefs: foreign keys may refer to tables created later (FOREIGN_KEY_CHECKS=0).
	LaterRefs     bool
	nExec, nQuery int

	clock int64
	inTx  bool
	snap  *State
	// MaxConns counts connections.
	Conns int
	rev   int // changes of the schema, for the catalog
}

// NewServer makes an empty server.
func NewServer(d Dialect, db, flavor string) *Server {
	return &Server{D: d, DB: db, Flavor: flavor, S: &State{}}
}

// ResetLog forgets what was received so far.
func (s *Server) ResetLog() {
	s.Log, s.Effects = nil, nil
	s.nExec, s.nQuery = 0, 0
	s.FailExec, s.FailQuery = 0, 0
	s.FailBegin, s.FailCommit = false, false
}

// Execs lists the statements that were executed successfully or not.
func (s *Server) Execs() []string {
	var out []string
	for _, e := range s.Log {
		if e.Op == "exec" {
			out = append(out, e.SQL)
		}
	}
	return out
}

func (s *Server) mark() int64 { s.clock++; return s.clock }

func (s *Server) effect(verb, key, via string) {
	s.Effects = append(s.Effects, Effect{Stmt: s.nExec, Verb: verb, Key: key, Via: via})
}

// Exec runs a statement.
func (s *Server) Exec(sql string) error {
	s.nExec++
	if s.FailExec != 0 && s.nExec == s.FailExec {
		s.Log = append(s.Log, Entry{Op: "exec", SQL: sql, Err: "injected failure", Tx: s.inTx})
		return errf("injected failure")
	}
	err := s.apply(sql)
	e := Entry{Op: "exec", SQL: sql, Tx: s.inTx}
	if err != nil {
		e.Err = err.Error()
	}
	s.Log = append(s.Log, e)
	if err != nil {
		return err
	}
	return nil
}

func (s *Server) apply(sql string) (err *SQLError) {
	s.rev++
	before := s.S.Clone()
	ne := len(s.Effects)
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(parseAbort)
			if !ok {
				panic(r)
			}
			err = a.err
		}
		if err != nil {
			s.S = before
			s.Effects = s.Effects[:ne]
		}
	}()
	p, perr := newParser(s.D, sql)
	if perr != nil {
		return perr
	}
	if p.eof() {
		return errf("empty statement")
	}
	switch s.D {
	case MySQL:
		s.mysqlStmt(p)
	case Postgres:
		s.pgStmt(p)
	case MSSQL:
		s.msStmt(p)
	default:
		return errf("no server for this dialect")
	}
	p.needEOF()
	return nil
}

// SplitStatements splits a script at semicolons outside quotes and comments.
func SplitStatements(d Dialect, script string) ([]string, error) {
	toks, err := lex(d, script)
	if err != nil {
		return nil, err
	}
	var out []string
	start := 0
	for i, t := range toks {
		if t.k == tOp && t.s == ";" {
			if i > start {
				out = append(out, script[toks[start].pos:toks[i-1].end])
			}
			start = i + 1
		}
	}
	if start < len(toks) {
		out = append(out, script[toks[start].pos:toks[len(toks)-1].end])
	}
	return out, nil
}

// Script runs a whole script, without logging it as requests of the tool.
func (s *Server) Script(script string) error {
	stmts, err := SplitStatements(s.D, script)
	if err != nil {
		return err
	}
	for _, st := range stmts {
		if e := s.apply(st); e != nil {
			return fmt.Errorf("%s: %s", e.Msg, st)
		}
	}
	return nil
}

// Begin starts a transaction.
func (s *Server) Begin() error {
	s.Log = append(s.Log, Entry{Op: "begin"})
	if s.FailBegin {
		return errf("injected failure of BEGIN")
	}
	s.inTx = true
	s.snap = s.S.Clone()
	return nil
}

// Commit ends it.
func (s *Server) Commit() error {
	s.Log = append(s.Log, Entry{Op: "commit"})
	if s.FailCommit {
		s.Rollback()
		return errf("injected failure of COMMIT")
	}
	s.inTx = false
	s.snap = nil
	return nil
}

// Rollback undoes it where DDL is transactional.
func (s *Server) Rollback() error {
	s.Log = append(s.Log, Entry{Op: "rollback"})
	if s.inTx && s.D != MySQL {
		s.S = s.snap
		s.rev++
	}
	s.inTx = false
	s.snap = nil
	return nil
}

// Query answers a query.
func (s *Server) Query(sql string, args []interface{}) ([]string, [][]interface{}, error) {
	s.nQuery++
	if s.FailQuery != 0 && s.nQuery == s.FailQuery {
		s.Log = append(s.Log, Entry{Op: "query", SQL: sql, Err: "injected failure"})
		return nil, nil, errf("injected failure")
	}
	var cols []string
	var rows [][]interface{}
	var err error
	switch s.D {
	case MySQL:
		cols, rows, err = s.mysqlQuery(sql)
	default:
		cols, rows, err = s.catalogQuery(sql, args)
	}
	e := Entry{Op: "query", SQL: sql}
	if err != nil {
		e.Err = err.Error()
	}
	s.Log = append(s.Log, e)
	return cols, rows, err
}

// Conn is one connection to the server; it implements fakedrv.Backend.
type Conn struct{ s *Server }

// Connect opens a connection.
func (s *Server) Connect() *Conn { s.Conns++; return &Conn{s} }

func (c *Conn) Query(q string, a []interface{}) ([]string, [][]interface{}, error) {
	return c.s.Query(q, a)
}
func (c *Conn) Exec(q string, a []interface{}) error { return c.s.Exec(q) }
func (c *Conn) Begin() error                         { return c.s.Begin() }
func (c *Conn) Commit() error                        { return c.s.Commit() }
func (c *Conn) Rollback() error                      { return c.s.Rollback() }
func (c *Conn) Close() error                         { return nil }

// joinTokens renders tokens canonically: one space between, words lower-cased
// unless quoted, strings quoted.
func joinTokens(toks []token) string {
	var out []string
	for _, t := range toks {
		switch t.k {
		case tWord:
			out = append(out, strings.ToLower(t.s))
		case tQuoted:
			// the tool compares bodies without regard to case
			out = append(out, strings.ToLower(t.s))
		case tString:
			out = append(out, "'"+strings.ReplaceAll(t.s, "'", "''")+"'")
		case tBits:
			out = append(out, "b'"+t.s+"'")
		default:
			out = append(out, t.s)
		}
	}
	return strings.Join(out, " ")
}

// stripParens removes redundant outer parentheses of a token list.
func stripParens(toks []token) []token {
	for len(toks) >= 2 && toks[0].k == tOp && toks[0].s == "(" && toks[len(toks)-1].k == tOp && toks[len(toks)-1].s == ")" {
		depth := 0
		for i, t := range toks {
			if t.k == tOp && t.s == "(" {
				depth++
			}
			if t.k == tOp && t.s == ")" {
				depth--
				if depth == 0 && i < len(toks)-1 {
					return toks
				}
			}
		}
		toks = toks[1 : len(toks)-1]
	}
	return toks
}

func containsStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
