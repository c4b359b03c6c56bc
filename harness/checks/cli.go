package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif.local/fakedrv"
	"verif.local/harness/engine"
	"verif.local/harness/sim"
)

// The commands themselves run as processes. Those of the network databases
// are built with the fake drivers and reach the server model of this process
// through a unix socket.

var cliDialects = []sim.Dialect{sim.MySQL, sim.SQLite, sim.Postgres}

var toolNames = map[sim.Dialect]string{sim.MySQL: "mysqldef", sim.Postgres: "psqldef", sim.MSSQL: "mssqldef", sim.SQLite: "sqlite3def"}

var cliDir string
var cliListener net.Listener
var cliMu sync.Mutex
var cliConns sync.WaitGroup

func scratch() string { return cliDir }

func cliSetup() error {
	d, err := os.MkdirTemp("/dev/shm", "verif-cli-")
	if err != nil {
		if d, err = os.MkdirTemp("", "verif-cli-"); err != nil {
			return err
		}
	}
	cliDir = d
	cliListener, err = net.Listen("unix", filepath.Join(d, "sim"))
	if err != nil {
		return err
	}
	go func() {
		for {
			c, err := cliListener.Accept()
			if err != nil {
				return
			}
			cliConns.Add(1)
			go func() {
				defer cliConns.Done()
				serveSim(c)
			}()
		}
	}()
	return nil
}

func cliTeardown() {
	if cliListener != nil {
		cliListener.Close()
	}
	if cliDir != "" {
		os.RemoveAll(cliDir)
	}
	sqliteTeardown()
}

func serveSim(c net.Conn) {
	defer c.Close()
	r := bufio.NewReaderSize(c, 1<<16)
	var b *sim.Conn
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			return
		}
		var m fakedrv.Message
		var rep fakedrv.Reply
		if err := json.Unmarshal(line, &m); err != nil {
			return
		}
		cliMu.Lock()
		if b == nil && current != nil {
			b = current.Connect()
		}
		switch m.Op {
		case "open":
		case "query":
			for i, a := range m.Args {
				if f, ok := a.(float64); ok {
					m.Args[i] = int64(f)
				}
			}
			rep.Cols, rep.Rows, err = b.Query(m.SQL, m.Args)
		case "exec":
			err = b.Exec(m.SQL, m.Args)
		case "begin":
			err = b.Begin()
		case "commit":
			err = b.Commit()
		case "rollback":
			err = b.Rollback()
		}
		cliMu.Unlock()
		if err != nil {
			rep.Err = err.Error()
		}
		out, err := json.Marshal(rep)
		if err != nil {
			return
		}
		if _, err := c.Write(append(out, '\n')); err != nil {
			return
		}
		if m.Op == "close" {
			return
		}
	}
}

// cmdResult is the outcome of a command.
type cmdResult struct {
	Out, Err string
	Code     int
	Fail     *engine.Failure
}

func (r *cmdResult) String() string {
	return fmt.Sprintf("exit status %d\nstdout:\n%s\nstderr:\n%s", r.Code, indent(r.Out), indent(r.Err))
}

func toolPath(d sim.Dialect, real bool) string {
	dir := os.Getenv("VERIF_BIN")
	if dir == "" {
		engine.Bug("VERIF_BIN is not set")
	}
	if real && d != sim.SQLite {
		return filepath.Join(dir, "real-"+toolNames[d])
	}
	return filepath.Join(dir, toolNames[d])
}

// runProcess runs a command.
func runProcess(path string, args, env []string, stdin string) *cmdResult {
	return runProcessIn(path, args, env, strings.NewReader(stdin))
}

func runProcessIn(path string, args, env []string, stdin io.Reader) *cmdResult {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, path, args...)
	c.Dir = cliDir
	c.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + cliDir, "VERIF_SIM_SOCK=" + filepath.Join(cliDir, "sim")}, env...)
	c.Stdin = stdin
	var out, errOut bytes.Buffer
	c.Stdout, c.Stderr = &out, &errOut
	err := c.Run()
	r := &cmdResult{Out: out.String(), Err: errOut.String(), Code: c.ProcessState.ExitCode()}
	if ctx.Err() != nil {
		r.Fail = engine.Fail("hang", "%s does not end", filepath.Base(path))
	} else if c.ProcessState == nil {
		engine.Bug("%s: %v", path, err)
	} else if strings.Contains(r.Err, "goroutine ") && (strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:")) {
		r.Fail = engine.Fail("panic", "%s crashes\n%s", filepath.Base(path), r)
	}
	return r
}

func dbArgs(s db) []string {
	switch s := s.(type) {
	case *sqliteDB:
		return []string{s.path}
	case simDB:
		current = s.Server
		return []string{s.DB}
	}
	engine.Bug("no command for %T", s)
	return nil
}

// command runs the dialect's command with a desired file, given by name or
// on standard input.
func command(t *engine.T, s db, desired string, args ...string) *cmdResult {
	if t.Bool() {
		return commandFile(s, "", desired, args)
	}
	f := filepath.Join(cliDir, "desired.sql")
	if err := os.WriteFile(f, []byte(desired), 0o644); err != nil {
		engine.Bug("%v", err)
	}
	return commandFile(s, f, "", args)
}

func commandFile(s db, file, stdin string, args []string) *cmdResult {
	a := append([]string{}, args...)
	if file != "" {
		a = append(a, "--file="+file)
	}
	a = append(a, dbArgs(s)...)
	if q, ok := s.(*sqliteDB); ok {
		// the command is a process of its own
		q.raw.Close()
		defer q.open()
	}
	r := runProcess(toolPath(s.Dialect(), false), a, nil, stdin)
	cliConns.Wait()
	return r
}
