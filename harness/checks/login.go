package checks

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"verif.local/harness/sim"
)

// login is what a server learns while a client logs in.
type login struct {
	User, Password, DB string
	passwordIs         func(pw string) bool // the password is known by its hash only
	TLS                bool
	Err                string
}

// loginServer speaks as much of a database's protocol as the login takes,
// then refuses.
type loginServer struct {
	d    sim.Dialect
	l    net.Listener
	cert *tls.Certificate
	mu   sync.Mutex
	got  []login
	wg   sync.WaitGroup
}

func serveLogins(d sim.Dialect, l net.Listener, cert *tls.Certificate) *loginServer {
	s := &loginServer{d: d, l: l, cert: cert}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer c.Close()
				c.SetDeadline(time.Now().Add(20 * time.Second))
				var lg login
				var err error
				switch d {
				case sim.MySQL:
					err = mysqlLogin(c, &lg)
				case sim.Postgres:
					err = pgLogin(c, &lg, cert)
				case sim.MSSQL:
					err = mssqlLogin(c, &lg)
				}
				if err != nil {
					lg.Err = err.Error()
				}
				s.mu.Lock()
				s.got = append(s.got, lg)
				s.mu.Unlock()
			}()
		}
	}()
	return s
}

func (s *loginServer) stop() []login {
	s.l.Close()
	s.wg.Wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.got
}

func mysqlLogin(c net.Conn, lg *login) error {
	salt := []byte("0123456789abcdefghij")
	var p []byte
	p = append(p, 10)
	p = append(p, "5.7.40\x00"...)
	p = append(p, 1, 0, 0, 0)
	p = append(p, salt[:8]...)
	p = append(p, 0)
	caps := uint32(1 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x80000)
	p = append(p, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	p = append(p, make([]byte, 10)...)
	p = append(p, salt[8:]...)
	p = append(p, 0)
	p = append(p, "mysql_native_password\x00"...)
	write := func(seq byte, p []byte) error {
		_, err := c.Write(append([]byte{byte(len(p)), byte(len(p) >> 8), byte(len(p) >> 16), seq}, p...))
		return err
	}
	if err := write(0, p); err != nil {
		return err
	}
	h := make([]byte, 4)
	if _, err := io.ReadFull(c, h); err != nil {
		return err
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	if _, err := io.ReadFull(c, b); err != nil {
		return err
	}
	if len(b) < 33 {
		return errors.New("short login")
	}
	flags := binary.LittleEndian.Uint32(b)
	b = b[32:]
	str := func() string {
		i := strings.IndexByte(string(b), 0)
		if i < 0 {
			i = len(b)
			s := string(b)
			b = nil
			return s
		}
		s := string(b[:i])
		b = b[i+1:]
		return s
	}
	lg.User = str()
	if len(b) == 0 {
		return errors.New("short login")
	}
	n := int(b[0])
	if len(b) < 1+n {
		return errors.New("short login")
	}
	auth := append([]byte(nil), b[1:1+n]...)
	b = b[1+n:]
	if flags&8 != 0 {
		lg.DB = str()
	}
	lg.passwordIs = func(pw string) bool {
		if pw == "" {
			return len(auth) == 0
		}
		h1 := sha1.Sum([]byte(pw))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte(nil), salt...), h2[:]...))
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		return string(h3[:]) == string(auth)
	}
	return write(h[3]+1, append([]byte{0xff, 0x15, 0x04, '#'}, "28000Access denied"...))
}

func pgLogin(c net.Conn, lg *login, cert *tls.Certificate) error {
	readStart := func() (uint32, []byte, error) {
		h := make([]byte, 8)
		if _, err := io.ReadFull(c, h); err != nil {
			return 0, nil, err
		}
		n := binary.BigEndian.Uint32(h)
		if n < 8 || n > 1<<20 {
			return 0, nil, errors.New("bad startup packet")
		}
		b := make([]byte, n-8)
		_, err := io.ReadFull(c, b)
		return binary.BigEndian.Uint32(h[4:]), b, err
	}
	code, b, err := readStart()
	if err != nil {
		return err
	}
	if code == 80877103 {
		if cert == nil {
			c.Write([]byte{'N'})
		} else {
			c.Write([]byte{'S'})
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*cert}})
			if err := t.Handshake(); err != nil {
				return fmt.Errorf("TLS: %v", err)
			}
			c = t
			lg.TLS = true
		}
		if code, b, err = readStart(); err != nil {
			return err
		}
	}
	if code != 196608 {
		return fmt.Errorf("protocol %d", code)
	}
	kv := strings.Split(string(b), "\x00")
	for i := 0; i+1 < len(kv) && kv[i] != ""; i += 2 {
		switch kv[i] {
		case "user":
			lg.User = kv[i+1]
		case "database":
			lg.DB = kv[i+1]
		}
	}
	c.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 3})
	h := make([]byte, 5)
	if _, err := io.ReadFull(c, h); err != nil {
		return err
	}
	n := binary.BigEndian.Uint32(h[1:])
	if h[0] != 'p' || n < 5 || n > 1<<20 {
		return errors.New("no password message")
	}
	b = make([]byte, n-4)
	if _, err := io.ReadFull(c, b); err != nil {
		return err
	}
	lg.Password = strings.TrimSuffix(string(b), "\x00")
	msg := "SFATAL\x00C28P01\x00Mno entry\x00\x00"
	out := []byte{'E'}
	out = binary.BigEndian.AppendUint32(out, uint32(len(msg)+4))
	_, err = c.Write(append(out, msg...))
	return err
}

func mssqlLogin(c net.Conn, lg *login) error {
	read := func() (byte, []byte, error) {
		var all []byte
		for {
			h := make([]byte, 8)
			if _, err := io.ReadFull(c, h); err != nil {
				return 0, nil, err
			}
			b := make([]byte, int(binary.BigEndian.Uint16(h[2:]))-8)
			if _, err := io.ReadFull(c, b); err != nil {
				return 0, nil, err
			}
			all = append(all, b...)
			if h[1]&1 != 0 {
				return h[0], all, nil
			}
		}
	}
	write := func(typ byte, b []byte) {
		h := []byte{typ, 1, 0, 0, 0, 0, 1, 0}
		binary.BigEndian.PutUint16(h[2:], uint16(len(b)+8))
		c.Write(append(h, b...))
	}
	typ, _, err := read()
	if err != nil {
		return err
	}
	if typ != 0x12 {
		return fmt.Errorf("packet %#x", typ)
	}
	// VERSION (6 bytes at 11), ENCRYPTION (1 byte at 17)
	write(4, []byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xff, 15, 0, 0, 0, 0, 0, 2})
	typ, b, err := read()
	if err != nil {
		return err
	}
	if typ != 0x10 || len(b) < 94 {
		return fmt.Errorf("packet %#x", typ)
	}
	field := func(at int, hidden bool) string {
		off, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
		if off+2*n > len(b) {
			return "?"
		}
		u := make([]uint16, n)
		for i := range u {
			lo, hi := b[off+2*i], b[off+2*i+1]
			if hidden {
				lo, hi = lo^0xa5, hi^0xa5
				lo, hi = lo<<4|lo>>4, hi<<4|hi>>4
			}
			u[i] = uint16(lo) | uint16(hi)<<8
		}
		return string(utf16.Decode(u))
	}
	lg.User, lg.Password, lg.DB = field(40, false), field(44, true), field(68, false)
	// ERROR token, DONE token
	msg := utf16.Encode([]rune("Login failed"))
	var e []byte
	e = binary.LittleEndian.AppendUint32(e, 18456)
	e = append(e, 1, 14)
	e = binary.LittleEndian.AppendUint16(e, uint16(len(msg)))
	for _, x := range msg {
		e = binary.LittleEndian.AppendUint16(e, x)
	}
	e = append(e, 0, 0, 1, 0, 0, 0)
	out := []byte{0xaa}
	out = binary.LittleEndian.AppendUint16(out, uint16(len(e)))
	out = append(out, e...)
	out = append(out, 0xfd, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	write(4, out)
	io.Copy(io.Discard, c)
	return nil
}

// makeCert makes a self-signed certificate for 127.0.0.1 and localhost.
func makeCert() (*tls.Certificate, []byte, error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, nil, err
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		return nil, nil, err
	}
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), nil
}
