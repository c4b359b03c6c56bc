// Package fakedrv is a database/sql driver whose server is a simulated
// database: in the same process through Hook, or in another process through
// a unix socket named by VERIF_SIM_SOCK (one JSON message per line).
package fakedrv

import (
	"bufio"
	"context"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
)

// Backend is one connection to a simulated server.
type Backend interface {
	Query(sql string, args []interface{}) (cols []string, rows [][]interface{}, err error)
	Exec(sql string, args []interface{}) error
	Begin() error
	Commit() error
	Rollback() error
	Close() error
}

// Hook opens in-process backends when set.
var Hook func(drv, dsn string) (Backend, error)

// New returns a driver reporting itself under the given name.
func New(name string) driver.Driver { return &drv{name} }

type drv struct{ name string }

func (d *drv) Open(dsn string) (driver.Conn, error) {
	if Hook != nil {
		b, err := Hook(d.name, dsn)
		if err != nil {
			return nil, err
		}
		return &conn{b}, nil
	}
	sock := os.Getenv("VERIF_SIM_SOCK")
	if sock == "" {
		return nil, errors.New("fakedrv: no simulated server configured")
	}
	c, err := net.Dial("unix", sock)
	if err != nil {
		return nil, err
	}
	s := &sockBackend{c: c, r: bufio.NewReaderSize(c, 1<<16)}
	if _, err := s.call(Message{Op: "open", SQL: dsn, Driver: d.name}); err != nil {
		c.Close()
		return nil, err
	}
	return &conn{s}, nil
}

// Message is a request of the socket protocol.
type Message struct {
	Op     string        `json:"op"`
	Driver string        `json:"driver,omitempty"`
	SQL    string        `json:"sql,omitempty"`
	Args   []interface{} `json:"args,omitempty"`
}

// Reply is its answer.
type Reply struct {
	Err  string          `json:"err,omitempty"`
	Cols []string        `json:"cols,omitempty"`
	Rows [][]interface{} `json:"rows,omitempty"`
}

type sockBackend struct {
	c net.Conn
	r *bufio.Reader
}

func (s *sockBackend) call(m Message) (*Reply, error) {
	b, err := json.Marshal(m)
	if err != nil {
		return nil, err
	}
	if _, err := s.c.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := s.r.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var rep Reply
	if err := json.Unmarshal(line, &rep); err != nil {
		return nil, err
	}
	for _, row := range rep.Rows {
		for i, v := range row {
			if f, ok := v.(float64); ok {
				row[i] = int64(f)
			}
		}
	}
	if rep.Err != "" {
		return nil, errors.New(rep.Err)
	}
	return &rep, nil
}
func (s *sockBackend) Query(q string, args []interface{}) ([]string, [][]interface{}, error) {
	r, err := s.call(Message{Op: "query", SQL: q, Args: args})
	if err != nil {
		return nil, nil, err
	}
	return r.Cols, r.Rows, nil
}
func (s *sockBackend) Exec(q string, args []interface{}) error {
	_, err := s.call(Message{Op: "exec", SQL: q, Args: args})
	return err
}
func (s *sockBackend) Begin() error    { _, err := s.call(Message{Op: "begin"}); return err }
func (s *sockBackend) Commit() error   { _, err := s.call(Message{Op: "commit"}); return err }
func (s *sockBackend) Rollback() error { _, err := s.call(Message{Op: "rollback"}); return err }
func (s *sockBackend) Close() error {
	s.call(Message{Op: "close"})
	return s.c.Close()
}

type conn struct{ b Backend }

func vals(args []driver.NamedValue) []interface{} {
	var out []interface{}
	for _, a := range args {
		out = append(out, a.Value)
	}
	return out
}

func (c *conn) Prepare(query string) (driver.Stmt, error) { return &stmt{c, query}, nil }
func (c *conn) Close() error                              { return c.b.Close() }
func (c *conn) Begin() (driver.Tx, error)                 { return c.BeginTx(context.Background(), driver.TxOptions{}) }
func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	if err := c.b.Begin(); err != nil {
		return nil, err
	}
	return &tx{c.b}, nil
}
func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	cols, rows, err := c.b.Query(q, vals(args))
	if err != nil {
		return nil, err
	}
	return &rowsT{cols, rows, 0}, nil
}
func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := c.b.Exec(q, vals(args)); err != nil {
		return nil, err
	}
	return driver.ResultNoRows, nil
}

type tx struct{ b Backend }

func (t *tx) Commit() error   { return t.b.Commit() }
func (t *tx) Rollback() error { return t.b.Rollback() }

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}
func named(args []driver.Value) []driver.NamedValue {
	var out []driver.NamedValue
	for i, a := range args {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return out
}

type rowsT struct {
	cols []string
	rows [][]interface{}
	i    int
}

func (r *rowsT) Columns() []string { return r.cols }
func (r *rowsT) Close() error      { return nil }
func (r *rowsT) Next(dest []driver.Value) error {
	if r.i >= len(r.rows) {
		return io.EOF
	}
	row := r.rows[r.i]
	r.i++
	if len(row) != len(dest) {
		return fmt.Errorf("fakedrv: row has %d values, want %d", len(row), len(dest))
	}
	for i := range dest {
		dest[i] = row[i]
	}
	return nil
}
