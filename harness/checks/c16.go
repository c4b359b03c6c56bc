package checks

import (
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/harness/engine"
	"verif.local/harness/sim"
)

var settingWords = []string{"root", "admin", "app", "u1", "secret"}
var settingChars = []string{"a", "b", "Z", "0", "@", ":", "/", "?", "#", "%", "%41", "%zz", "+", " ", "&", "=", ";", "'", "\"", "\\", "[", "]", "(", ")", ",", "<", ">", "!", "$", "*", "~", "^", "|", "{", "}", "-", "_", ".", "é", "日", "`", "@tcp(x)/", "://"}

func setting(t *engine.T, nasty int) string {
	if !t.Chance(nasty) {
		return engine.Pick(t, settingWords)
	}
	var sb strings.Builder
	for i := t.Range(1, 6); i > 0; i-- {
		sb.WriteString(engine.Pick(t, settingChars))
	}
	return sb.String()
}

type flagNames struct{ user, pass, host, port, file, env, defUser, defPort string }

var flagsOf = map[sim.Dialect]flagNames{
	sim.MySQL:    {"u", "p", "h", "P", "", "MYSQL_PWD", "root", "3306"},
	sim.Postgres: {"U", "W", "h", "p", "f", "PGPASSWORD", "postgres", "5432"},
	sim.MSSQL:    {"U", "P", "h", "p", "", "MSSQL_PWD", "sa", "1433"},
}

// option spells a flag.
func option(t *engine.T, short, long, val string) []string {
	switch t.N(4) {
	case 0:
		return []string{"--" + long + "=" + val}
	case 1:
		if !strings.HasPrefix(val, "-") {
			return []string{"--" + long, val}
		}
	case 2:
		if short != "" && !strings.HasPrefix(val, "-") {
			return []string{"-" + short, val}
		}
	case 3:
		if short != "" && val != "" && !strings.HasPrefix(val, "=") && !strings.ContainsAny(val[:1], "\"'") && val[0] < 0x80 && short != "p" {
			return []string{"-" + short + "=" + val}
		}
	}
	return []string{"--" + long + "=" + val}
}

var tlsCert, tlsOther struct {
	cert *tls.Certificate
	file string
}

func listenDefault(addr string) net.Listener {
	for i := 0; i < 100; i++ {
		if l, err := net.Listen("tcp", addr); err == nil {
			return l
		}
		time.Sleep(100 * time.Millisecond)
	}
	return nil
}

func connection(d sim.Dialect) func(t *engine.T) *engine.Failure {
	return func(t *engine.T) *engine.Failure {
		fn := flagsOf[d]
		want := login{User: fn.defUser}
		var args, env []string
		hard := 0
		if t.Chance(85) {
			want.User = setting(t, 60)
			if d == sim.MSSQL {
				want.User = strings.ReplaceAll(want.User, "\\", "/") // domain\user is Windows authentication
			}
			args = append(args, option(t, fn.user, "user", want.User)...)
			hard++
		}
		if t.Chance(70) {
			want.Password = setting(t, 70)
			args = append(args, option(t, fn.pass, "password", want.Password)...)
			hard++
		}
		if t.Chance(35) {
			want.Password = setting(t, 70)
			if t.Chance(15) {
				want.Password = ""
			}
			env = append(env, fn.env+"="+want.Password)
			hard++
		}
		want.DB = setting(t, 25)
		if strings.HasPrefix(want.DB, "-") {
			want.DB = "d" + want.DB
		}
		if d == sim.MySQL {
			want.DB = strings.ReplaceAll(want.DB, "/", "_")
		}
		// where the server listens
		var l net.Listener
		var err error
		var where string
		wantTLS := false
		refuse := false // the client must not log in
		host := "127.0.0.1"
		var cert *tls.Certificate
		mode := t.N(10)
		switch {
		case mode < 2 && d == sim.MySQL || mode < 2 && d == sim.Postgres: // unix socket
			if d == sim.MySQL {
				where = filepath.Join(cliDir, engine.Pick(t, []string{"my.sock", "my sock"}))
				args = append(args, option(t, "S", "socket", where)...)
				if t.Chance(30) {
					args = append(args, option(t, fn.host, "host", "192.0.2.1")...)
				}
			} else {
				port := fn.defPort
				if t.Bool() {
					port = fmt.Sprint(t.Range(1024, 60000))
					args = append(args, option(t, fn.port, "port", port)...)
				}
				dir := filepath.Join(cliDir, engine.Pick(t, []string{"pg", "pg dir"}))
				os.MkdirAll(dir, 0o755)
				where = filepath.Join(dir, ".s.PGSQL."+port)
				args = append(args, option(t, fn.host, "host", dir)...)
			}
			os.Remove(where)
			if l, err = net.Listen("unix", where); err != nil {
				engine.Bug("%v", err)
			}
			defer os.Remove(where)
		case mode == 2: // default port, maybe default host
			if !t.Chance(30) {
				host = fmt.Sprintf("127.0.0.%d", 10+os.Getpid()%200)
				args = append(args, option(t, fn.host, "host", host)...)
			}
			where = host + ":" + fn.defPort
			if l = listenDefault(where); l == nil {
				t.Label("default port is taken")
				return nil
			}
		default:
			if l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
				engine.Bug("%v", err)
			}
			where = l.Addr().String()
			if t.Chance(40) {
				host = engine.Pick(t, []string{"localhost", "127.0.0.1"})
				args = append(args, option(t, fn.host, "host", host)...)
			}
			_, port, _ := net.SplitHostPort(where)
			args = append(args, option(t, fn.port, "port", port)...)
		}
		if d == sim.Postgres {
			sslmode := engine.Pick(t, []string{"disable", "disable", "", "require", "verify-ca", "verify-full"})
			unix := l.Addr().Network() == "unix"
			if sslmode != "" {
				env = append(env, "PGSSLMODE="+sslmode)
			}
			if sslmode != "disable" && !unix {
				cert = tlsCert.cert
				wantTLS = true
				if sslmode == "verify-ca" || sslmode == "verify-full" {
					switch t.N(3) {
					case 0:
						env = append(env, "PGSSLROOTCERT="+tlsOther.file)
						refuse = true
					case 1:
						refuse = true // unknown authority
					default:
						env = append(env, "PGSSLROOTCERT="+tlsCert.file)
					}
				}
				if host != "127.0.0.1" && host != "localhost" && sslmode == "verify-full" {
					refuse = true
				}
				if t.Chance(15) && !refuse {
					cert = nil // no TLS offered
					refuse = true
				}
			}
		}
		if t.Chance(30) {
			args = append(args, engine.Pick(t, []string{"--dry-run", "--export", "--skip-drop"}))
		}
		all := append(append([]string{}, args...), want.DB)
		if t.Chance(30) {
			all = append([]string{want.DB}, args...)
		}
		srv := serveLogins(d, l, cert)
		t.Logf("%s %q, environment %q, server at %s", toolNames[d], all, env, where)
		t.Sample(fmt.Sprintf("%s %q %q", toolNames[d], all, env))
		if hard > 0 {
			t.NonTrivial(fmt.Sprint(args, env))
		}
		r := runProcess(toolPath(d, true), all, env, "create table a (id int)")
		got := srv.stop()
		if r.Fail != nil {
			return r.Fail
		}
		if r.Code == 0 {
			return engine.Fail("exit-zero", "a refused login goes unreported\n%s", r)
		}
		if strings.TrimSpace(r.Err) == "" {
			return engine.Fail("no-message", "a refused login is not reported\n%s", r)
		}
		if refuse {
			for _, g := range got {
				if g.Err == "" {
					return engine.Fail("insecure", "the client logs in although it must not trust the server: %+v", g)
				}
			}
			return nil
		}
		if len(got) == 0 {
			return engine.Fail("no-connection", "nobody connects to %s\n%s", where, r)
		}
		for _, g := range got {
			if g.Err != "" {
				return engine.Fail("protocol", "login fails: %s\n%s", g.Err, r)
			}
			if g.User != want.User {
				return engine.Fail("user", "user is %q, want %q", g.User, want.User)
			}
			if g.passwordIs != nil {
				if !g.passwordIs(want.Password) {
					return engine.Fail("password", "the password is not %q", want.Password)
				}
			} else if g.Password != want.Password {
				return engine.Fail("password", "password is %q, want %q", g.Password, want.Password)
			}
			if g.DB != want.DB {
				return engine.Fail("database", "database is %q, want %q", g.DB, want.DB)
			}
			if g.TLS != wantTLS {
				return engine.Fail("tls", "TLS: %v, want %v", g.TLS, wantTLS)
			}
		}
		return nil
	}
}

// badArgs: calls that must be refused without connecting.
func badArgs(t *engine.T) *engine.Failure {
	d := engine.Pick(t, allDialects)
	fn := flagsOf[d]
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		engine.Bug("%v", err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	srv := serveLogins(d, l, nil)
	var args []string
	if d != sim.SQLite {
		args = append(args, "-"+fn.port, port)
		if t.Bool() {
			args = append(args, option(t, fn.user, "user", setting(t, 20))...)
		}
	}
	if t.Chance(30) {
		args = append(args, engine.Pick(t, []string{"--dry-run", "--export", "--skip-drop"}))
	}
	wantZero := false
	kind := t.N(5)
	file := filepath.Join(cliDir, "never.db")
	switch kind {
	case 0: // no database
	case 1:
		args = append(args, file, engine.Pick(t, []string{"b", "", "a.sql"}))
		if t.Bool() {
			args = append(args, "c")
		}
	case 2:
		args = append(args, engine.Pick(t, []string{"--nope", "-x", "--users=1", "--dryrun", "--dry-run=maybe", "--export-all"}), file)
	case 3:
		if d == sim.SQLite {
			args = append(args, "--port=1", file)
		} else {
			args = append(args, "--port="+engine.Pick(t, []string{"x", "-1", "1.5", "12a", "99999999999999999999999"}), file)
		}
	case 4:
		args = append(args, engine.Pick(t, []string{"--help", "--version"}))
		wantZero = true
		if t.Bool() {
			args = append(args, file)
		}
	}
	t.Logf("%s %q", toolNames[d], args)
	t.Sample(fmt.Sprintf("%s %q", toolNames[d], args))
	t.NonTrivial(fmt.Sprint(d, args))
	r := runProcess(toolPath(d, true), args, nil, "create table a (id int)")
	got := srv.stop()
	_, statErr := os.Stat(file)
	os.Remove(file)
	if r.Fail != nil {
		return r.Fail
	}
	if wantZero != (r.Code == 0) {
		return engine.Fail("exit", "exit status %d\n%s", r.Code, r)
	}
	if len(got) > 0 || statErr == nil {
		return engine.Fail("connects", "connects although the call is refused\n%s", r)
	}
	if !wantZero && strings.TrimSpace(r.Out+r.Err) == "" {
		return engine.Fail("no-message", "refused without a message")
	}
	return nil
}

// prompt: --password-prompt reads the password from the terminal.
func prompt(t *engine.T) *engine.Failure {
	d := engine.Pick(t, []sim.Dialect{sim.MySQL, sim.Postgres, sim.MSSQL})
	fn := flagsOf[d]
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		engine.Bug("%v", err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	srv := serveLogins(d, l, nil)
	pw := setting(t, 70)
	file := filepath.Join(cliDir, "desired.sql")
	os.WriteFile(file, []byte("create table a (id int)"), 0o644)
	args := []string{"--password-prompt", "-" + fn.port, port, "--file", file}
	env := []string{"PGSSLMODE=disable"}
	if t.Chance(40) {
		args = append(args, "--password=other")
	}
	if t.Chance(40) {
		env = append(env, fn.env+"=another")
	}
	args = append(args, "db1")
	t.Logf("%s %q %q, typed password %q", toolNames[d], args, env, pw)
	t.Sample(fmt.Sprintf("%s %q, typed %q", toolNames[d], args, pw))
	t.NonTrivial(pw, fmt.Sprint(d))
	m, slave, err := openPty()
	if err != nil {
		srv.stop()
		t.Label("no terminal: %v", err)
		return nil
	}
	defer m.Close()
	defer slave.Close()
	m.Write([]byte(pw + "\n"))
	r := runProcessIn(toolPath(d, true), args, env, slave)
	got := srv.stop()
	if r.Fail != nil {
		return r.Fail
	}
	if len(got) == 0 {
		return engine.Fail("no-connection", "nobody connects\n%s", r)
	}
	g := got[0]
	if g.Err != "" {
		return engine.Fail("protocol", "login fails: %s\n%s", g.Err, r)
	}
	if g.passwordIs != nil && !g.passwordIs(pw) || g.passwordIs == nil && g.Password != pw {
		return engine.Fail("password", "the password is not the one typed, %q: %q", pw, g.Password)
	}
	return nil
}

func openPty() (master, slave *os.File, err error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

func init() {
	parts := []engine.Part{}
	for _, d := range []sim.Dialect{sim.MySQL, sim.Postgres, sim.MSSQL} {
		parts = append(parts, engine.Part{Name: d.String(), Quick: 2000, Thorough: 60000, Run: connection(d)})
	}
	engine.Register(&engine.Check{
		ID:   "C16",
		Rule: "user or password is given, or the call must be refused",
		Parts: append(parts,
			engine.Part{Name: "arguments", Quick: 1000, Thorough: 20000, Run: badArgs},
			engine.Part{Name: "prompt", Quick: 300, Thorough: 6000, Run: prompt}),
		Setup: func() error {
			if err := cliSetup(); err != nil {
				return err
			}
			for i, x := range []*struct {
				cert *tls.Certificate
				file string
			}{(*struct {
				cert *tls.Certificate
				file string
			})(&tlsCert), (*struct {
				cert *tls.Certificate
				file string
			})(&tlsOther)} {
				c, pem, err := makeCert()
				if err != nil {
					return err
				}
				x.cert, x.file = c, filepath.Join(cliDir, fmt.Sprintf("root%d.pem", i))
				if err := os.WriteFile(x.file, pem, 0o600); err != nil {
					return err
				}
			}
			return nil
		},
		Teardown: cliTeardown,
	})
}
