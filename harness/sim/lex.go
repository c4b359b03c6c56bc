// Package sim contains simulated database servers: a DDL interpreter per
// dialect with the preconditions the real server enforces, the catalog views
// the tools read, and a comparable schema model. It shares no code with the
// tools under test.
package sim

import (
	"fmt"
	"strings"
)

// Dialect of a simulated server.
type Dialect int

const (
	MySQL Dialect = iota
	Postgres
	MSSQL
	SQLite
)

func (d Dialect) String() string { return [...]string{"mysql", "postgres", "mssql", "sqlite3"}[d] }

type kind int

const (
	tEOF    kind = iota
	tWord        // unquoted identifier or keyword
	tQuoted      // quoted identifier
	tString      // string literal (decoded)
	tNum         // number
	tOp          // punctuation / operator
	tBits        // b'...' (decoded digits)
	tHex
)

type token struct {
	k        kind
	s        string // decoded text; words keep their case
	pos      int
	end      int
	spBefore bool
}

func (t token) lower() string { return strings.ToLower(t.s) }

// SQLError is an error the simulated server reports for a statement.
type SQLError struct{ Msg string }

func (e *SQLError) Error() string { return e.Msg }

func errf(format string, a ...interface{}) *SQLError { return &SQLError{fmt.Sprintf(format, a...)} }

func isWordStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || c == '@' || c == '$' || c == '#'
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// lex splits a statement into tokens the way the dialect's server does.
func lex(d Dialect, s string) (out []token, err *SQLError) {
	i := 0
	sp := false
	add := func(k kind, v string, a, b int) {
		out = append(out, token{k, v, a, b, sp})
		sp = false
	}
	inHint := false
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
			sp = true
		case c == '-' && i+1 < len(s) && s[i+1] == '-', d == MySQL && c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			sp = true
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			if d == MySQL && i+2 < len(s) && s[i+2] == '!' {
				i += 3
				for i < len(s) && isDigit(s[i]) {
					i++
				}
				inHint = true
				sp = true
				continue
			}
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return nil, errf("unterminated comment")
			}
			i += 2 + j + 2
			sp = true
		case inHint && c == '*' && i+1 < len(s) && s[i+1] == '/':
			i += 2
			inHint = false
			sp = true
		case (c == 'b' || c == 'B') && i+1 < len(s) && s[i+1] == '\'' && d == MySQL:
			j := strings.IndexByte(s[i+2:], '\'')
			if j < 0 {
				return nil, errf("unterminated bit literal")
			}
			add(tBits, s[i+2:i+2+j], i, i+3+j)
			i += 3 + j
		case (c == 'n' || c == 'N') && i+1 < len(s) && s[i+1] == '\'' && d == MSSQL:
			v, n, e := scanQuoted(s[i+1:], '\'', false)
			if e != nil {
				return nil, e
			}
			add(tString, v, i, i+1+n)
			i += 1 + n
		case c == '\'' || c == '"' && d == MySQL:
			v, n, e := scanQuoted(s[i:], c, d == MySQL)
			if e != nil {
				return nil, e
			}
			add(tString, v, i, i+n)
			i += n
		case c == '"' || c == '`' && (d == MySQL || d == SQLite):
			v, n, e := scanQuoted(s[i:], c, false)
			if e != nil {
				return nil, e
			}
			if v == "" {
				return nil, errf("zero-length identifier")
			}
			add(tQuoted, v, i, i+n)
			i += n
		case c == '[' && (d == MSSQL || d == SQLite):
			var sb strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return nil, errf("unterminated identifier")
				}
				if s[j] == ']' {
					if d == MSSQL && j+1 < len(s) && s[j+1] == ']' {
						sb.WriteByte(']')
						j += 2
						continue
					}
					break
				}
				sb.WriteByte(s[j])
				j++
			}
			add(tQuoted, sb.String(), i, j+1)
			i = j + 1
		case isDigit(c) || c == '.' && i+1 < len(s) && isDigit(s[i+1]):
			j := i
			if c == '0' && i+1 < len(s) && (s[i+1] == 'x' || s[i+1] == 'X') {
				j += 2
				for j < len(s) && (isDigit(s[j]) || strings.IndexByte("abcdefABCDEF", s[j]) >= 0) {
					j++
				}
				add(tHex, s[i:j], i, j)
				i = j
				continue
			}
			for j < len(s) && (isDigit(s[j]) || s[j] == '.') {
				j++
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && (s[k] == '+' || s[k] == '-') {
					k++
				}
				if k < len(s) && isDigit(s[k]) {
					for k < len(s) && isDigit(s[k]) {
						k++
					}
					j = k
				}
			}
			add(tNum, s[i:j], i, j)
			i = j
		case isWordStart(c):
			j := i
			for j < len(s) && (isWordStart(s[j]) || isDigit(s[j])) {
				j++
			}
			add(tWord, s[i:j], i, j)
			i = j
		default:
			n := 1
			for _, op := range []string{"<=>", "::", "<=", ">=", "<>", "!=", "||", "&&", "->>", "->", "!~~", "~~*", "~~"} {
				if strings.HasPrefix(s[i:], op) {
					n = len(op)
					break
				}
			}
			if strings.IndexByte("(),.;=<>+-*/%!:~|&^?[]{}", c) < 0 {
				return nil, errf("unexpected character %q at %d", c, i)
			}
			add(tOp, s[i:i+n], i, i+n)
			i += n
		}
	}
	if inHint {
		return nil, errf("unterminated hint comment")
	}
	return out, nil
}

var mysqlEsc = map[byte]byte{'0': 0, 'b': 8, 'n': '\n', 'r': '\r', 't': '\t', 'Z': 26}

func scanQuoted(s string, q byte, backslash bool) (string, int, *SQLError) {
	var sb strings.Builder
	i := 1
	for i < len(s) {
		c := s[i]
		if c == q {
			if i+1 < len(s) && s[i+1] == q {
				sb.WriteByte(q)
				i += 2
				continue
			}
			return sb.String(), i + 1, nil
		}
		if backslash && c == '\\' && i+1 < len(s) {
			if e, ok := mysqlEsc[s[i+1]]; ok {
				sb.WriteByte(e)
			} else {
				sb.WriteByte(s[i+1])
			}
			i += 2
			continue
		}
		sb.WriteByte(c)
		i++
	}
	return "", 0, errf("unterminated quoted text %.20q", s)
}

// parser is a cursor over the tokens of one statement.
type parser struct {
	d    Dialect
	src  string
	toks []token
	i    int
}

type parseAbort struct{ err *SQLError }

func newParser(d Dialect, s string) (*parser, *SQLError) {
	toks, err := lex(d, s)
	if err != nil {
		return nil, err
	}
	for len(toks) > 0 && toks[len(toks)-1].k == tOp && toks[len(toks)-1].s == ";" {
		toks = toks[:len(toks)-1]
	}
	return &parser{d: d, src: s, toks: toks}, nil
}

func (p *parser) fail(format string, a ...interface{}) {
	panic(parseAbort{errf(format, a...)})
}
func (p *parser) peek() token {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return token{k: tEOF, pos: len(p.src), end: len(p.src)}
}
func (p *parser) peekN(n int) token {
	if p.i+n < len(p.toks) {
		return p.toks[p.i+n]
	}
	return token{k: tEOF}
}
func (p *parser) next() token { t := p.peek(); p.i++; return t }
func (p *parser) eof() bool   { return p.i >= len(p.toks) }
func (p *parser) near() string {
	t := p.peek()
	if t.k == tEOF {
		return "end of statement"
	}
	e := t.pos + 30
	if e > len(p.src) {
		e = len(p.src)
	}
	return fmt.Sprintf("%q", p.src[t.pos:e])
}
func (p *parser) isKw(words ...string) bool {
	for j, w := range words {
		t := p.peekN(j)
		if t.k != tWord || !strings.EqualFold(t.s, w) {
			return false
		}
	}
	return true
}
func (p *parser) kw(words ...string) bool {
	if p.isKw(words...) {
		p.i += len(words)
		return true
	}
	return false
}
func (p *parser) needKw(words ...string) {
	if !p.kw(words...) {
		p.fail("syntax error near %s: expected %s", p.near(), strings.Join(words, " "))
	}
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.k == tOp && t.s == s }
func (p *parser) op(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) needOp(s string) {
	if !p.op(s) {
		p.fail("syntax error near %s: expected %q", p.near(), s)
	}
}
func (p *parser) needEOF() {
	if !p.eof() {
		p.fail("syntax error near %s: unexpected text", p.near())
	}
}

// ident reads an identifier. Reserved words must be quoted.
func (p *parser) ident() string {
	t := p.next()
	switch t.k {
	case tQuoted:
		return t.s
	case tWord:
		if reserved[p.d][strings.ToLower(t.s)] {
			p.i--
			p.fail("syntax error near %s: reserved word used as a name", p.near())
		}
		if p.d == Postgres {
			return strings.ToLower(t.s)
		}
		return t.s
	}
	p.i--
	p.fail("syntax error near %s: expected a name", p.near())
	return ""
}

// qname reads [schema.]name.
func (p *parser) qname() (schema, name string) {
	name = p.ident()
	if p.op(".") {
		schema, name = name, p.label()
	}
	return
}

// label reads a name at a place where reserved words need no quotes.
func (p *parser) label() string {
	if t := p.peek(); p.d == Postgres && t.k == tWord {
		p.next()
		return t.lower()
	}
	return p.ident()
}
func (p *parser) number() string {
	neg := p.op("-")
	t := p.next()
	if t.k != tNum {
		p.i--
		p.fail("syntax error near %s: expected a number", p.near())
	}
	if neg {
		return "-" + t.s
	}
	return t.s
}

// identList reads (a, b, c).
func (p *parser) identList() []string {
	p.needOp("(")
	var out []string
	for {
		out = append(out, p.ident())
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return out
}

// parenTokens reads a balanced (...) and returns the tokens inside.
func (p *parser) parenTokens() []token {
	p.needOp("(")
	start := p.i
	depth := 1
	for !p.eof() {
		t := p.next()
		if t.k == tOp && t.s == "(" {
			depth++
		} else if t.k == tOp && t.s == ")" {
			depth--
			if depth == 0 {
				return p.toks[start : p.i-1]
			}
		}
	}
	p.fail("syntax error: unbalanced parentheses")
	return nil
}

func words(list string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(list) {
		m[w] = true
	}
	return m
}

// Reserved words that cannot be used unquoted as table or column names
// (subset sufficient for the generated names).
var reserved = map[Dialect]map[string]bool{
	MySQL:    words("add all alter and as asc between by case change character check collate column condition constraint create cross current_date current_timestamp default delete desc distinct drop else exists explain false for foreign from fulltext grant group having if in index insert interval into is join key keys kill left like limit lock not null on or order primary range read references rename replace right select set show spatial table then to trigger true union unique unsigned update usage use using values varchar when where with write"),
	Postgres: words("all analyse analyze and any array as asc both case cast check collate column constraint create current_date current_timestamp default desc distinct do else end except false for foreign from grant group having in initially intersect into leading limit not null offset on only or order placing primary references select some table then to trailing true union unique user using when where window with"),
	MSSQL:    words("add all alter and any as asc between by case check clustered column constraint create cross current_date current_timestamp database default delete desc distinct drop else end exists for foreign from full function grant group having identity if in index inner insert into is join key left like nonclustered not null of off on open option or order outer plan primary procedure proc public read references right rule schema select set some table then to top trigger union unique update use user values view when where with"),
	SQLite:   words("add all alter and as between by case check collate column commit constraint create default deferrable delete distinct drop else escape exists foreign from group having if in index insert intersect into is isnull join limit not notnull null on or order primary references select set table then to transaction trigger union unique update using values when where"),
}

// Tokens describes the tokens of a statement, without blanks and comments.
func Tokens(d Dialect, s string) (string, error) {
	ts, err := lex(d, s)
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d%q ", t.k, t.s)
	}
	return sb.String(), nil
}

// HasWord: the statement contains a keyword, outside of quotes and comments.
func HasWord(d Dialect, s, word string) bool {
	ts, err := lex(d, s)
	if err != nil {
		return strings.Contains(strings.ToLower(s), word)
	}
	for _, t := range ts {
		if t.k == tWord && t.lower() == word {
			return true
		}
	}
	return false
}

// ReadOnly: a query that cannot modify the database.
func ReadOnly(s string) bool {
	s = strings.ToLower(strings.TrimSpace(s))
	return strings.HasPrefix(s, "select") || strings.HasPrefix(s, "show") || strings.HasPrefix(s, "with")
}
