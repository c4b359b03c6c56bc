package sim

import (
	"sort"
	"strings"
)

// SQLiteTable reads what the pragmas do not tell from a stored CREATE TABLE:
// per column collation, checks and AUTOINCREMENT, and the table's constraints.
func SQLiteTable(sql string) (cols map[string]string, opts string, err error) {
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(parseAbort)
			if !ok {
				panic(r)
			}
			err = a.err
		}
	}()
	p, e := newParser(SQLite, sql)
	if e != nil {
		return nil, "", e
	}
	cols = map[string]string{}
	p.needKw("create")
	p.needKw("table")
	p.kw("if", "not", "exists")
	p.qname()
	body := p.parenTokens()
	var parts [][]token
	start, depth := 0, 0
	for i, t := range body {
		if t.k == tOp {
			switch t.s {
			case "(":
				depth++
			case ")":
				depth--
			case ",":
				if depth == 0 {
					parts = append(parts, body[start:i])
					start = i + 1
				}
			}
		}
	}
	parts = append(parts, body[start:])
	var extra []string
	for _, d := range parts {
		if len(d) == 0 {
			p.fail("empty definition")
		}
		if d[0].k == tWord {
			switch d[0].lower() {
			case "constraint", "foreign", "check", "unique", "primary":
				extra = append(extra, joinTokens(d))
				continue
			}
		}
		var at []string
		q := &parser{d: SQLite, src: sql, toks: d, i: 1}
		for !q.eof() {
			switch {
			case q.kw("collate"):
				if c := strings.ToLower(q.next().s); c != "binary" {
					at = append(at, "collate "+c)
				}
			case q.kw("check"):
				at = append(at, "check "+joinTokens(q.parenTokens()))
			case q.kw("autoincrement"):
				at = append(at, "autoincrement")
			case q.kw("references"):
				at = append(at, "references "+joinTokens(q.toks[q.i:]))
				q.i = len(q.toks)
			default:
				q.next()
			}
		}
		sort.Strings(at)
		cols[d[0].s] = strings.Join(at, " ")
	}
	sort.Strings(extra)
	if !p.eof() {
		extra = append(extra, joinTokens(p.toks[p.i:]))
	}
	return cols, strings.Join(extra, "; "), nil
}

// SQLiteView gives the definition of a stored CREATE VIEW, free of spelling.
func SQLiteView(sql string) (def string, err error) {
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(parseAbort)
			if !ok {
				panic(r)
			}
			err = a.err
		}
	}()
	p, e := newParser(SQLite, sql)
	if e != nil {
		return "", e
	}
	p.needKw("create")
	p.needKw("view")
	p.kw("if", "not", "exists")
	p.qname()
	p.needKw("as")
	return spellingFree(p.toks[p.i:]), nil
}

// spellingFree joins the tokens of a query without optional words.
func spellingFree(toks []token) string {
	var out []token
	for _, t := range toks {
		if t.k == tWord {
			switch t.lower() {
			case "as", "asc", "inner", "outer":
				continue
			}
		}
		if t.k == tOp && t.s == "<>" {
			t.s = "!="
		}
		out = append(out, t)
	}
	return joinTokens(out)
}
