package checks

import (
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/sqlparser"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/query"
	"verif.local/harness/sim"
)

// splitFile: every statement of a desired file is found, with its own text.
func splitFile(t *engine.T) *engine.Failure {
	d := engine.Pick(t, allDialects)
	f := gen.NewFile(t, d)
	var sb strings.Builder
	var stmts []gen.FileStmt
	for i := t.Range(1, 5); i > 0; i-- {
		s := f.Any()
		stmts = append(stmts, s)
		if t.Chance(20) {
			sb.WriteString(engine.Pick(t, []string{"-- c;\n", "/* a; 'b */ ", "\n--it's\n", "/**/\n", ";", " ; "}))
		}
		sb.WriteString(f.Text(s.Toks))
		if i > 1 || t.Bool() {
			sb.WriteString(engine.Pick(t, []string{";\n", ";", " ;\n\n", ";\n-- x; 'y\n", "\n;", ";;"}))
		}
	}
	if t.Chance(20) {
		sb.WriteString(engine.Pick(t, []string{" ", "\n-- end;", "\n/* end; */", "\n\n"}))
	}
	text := sb.String()
	t.Logf("%v desired file:\n%s", d, text)
	t.Sample(text)
	t.Label("%v", d)
	if len(stmts) > 1 && f.Nasty {
		t.NonTrivial(text)
	}
	plan, fail := planOf(d, text, "")
	if fail != nil {
		return fail
	}
	if len(plan) != len(stmts) {
		return engine.Fail("count", "%d statements became %d:\n%s", len(stmts), len(plan), strings.Join(plan, "\n"))
	}
	for i, s := range stmts {
		if s.Kind == "trigger" {
			continue // written anew
		}
		want, err := sim.Tokens(d, strings.Join(s.Toks, " "))
		if err != nil {
			engine.Bug("%v", err)
		}
		got, err := sim.Tokens(d, plan[i])
		if err != nil {
			return engine.Fail("garbled", "statement %d became %q: %v", i+1, plan[i], err)
		}
		if want != got {
			return engine.Fail("statement-changed", "statement %d changed\nwant: %s\ngot:  %s", i+1, want, got)
		}
	}
	t.Evals(len(stmts))
	return nil
}

var allDialects = []sim.Dialect{sim.MySQL, sim.Postgres, sim.MSSQL, sim.SQLite}

// planOf plans; an error is a failure.
func planOf(d sim.Dialect, desired, cur string) (plan []string, fail *engine.Failure) {
	var err error
	fail = engine.Guard("planning", func() { plan, err = schema.GenerateIdempotentDDLs(mode(d), desired, cur) })
	if fail == nil && err != nil {
		fail = engine.Fail("error", "planning fails: %v", err)
	}
	return
}

var otherStmts = []string{"begin", "commit", "rollback", "use db", "show tables", "show create table `a;b`", "explain select ';'", "select ?, ? from t where a = ?", "select 1", "truncate table t", "analyze table t", "drop table if exists a", "create table t (id int default 1)", "show variables like 'a;b'"}

func splitQueries(t *engine.T) *engine.Failure {
	var pieces []string
	var sb strings.Builder
	strict := true
	for i := t.Range(1, 4); i > 0; i-- {
		p, other := "", false
		if t.Chance(25) {
			p = engine.Pick(t, otherStmts)
			other = true
		} else {
			g := query.New(t)
			g.Depth = t.Range(1, 2)
			_, toks := g.Stmt()
			p = g.Text(toks)
		}
		if t.Chance(20) {
			p += engine.Pick(t, []string{" ", "\n", " /* ; */", " -- ; '\n", " # ;\n", " /*!40001 */", "\t"})
		}
		if i < 1000 && len(pieces) > 0 && t.Chance(30) {
			p = engine.Pick(t, []string{" ", "\n", "/* ; */ ", "-- ; \" '\n"}) + p
		}
		if other && strings.Contains(p, ";") {
			strict = false // the rest of such statements is skipped as text (known finding)
		}
		pieces = append(pieces, p)
		sb.WriteString(p)
		if i > 1 {
			sb.WriteString(";")
		}
	}
	if t.Bool() {
		sb.WriteString(";")
	}
	text := sb.String()
	t.Logf("text: %s", text)
	t.Sample(text)
	if len(pieces) > 1 && strings.Count(text, ";") > len(pieces) {
		t.NonTrivial(text)
	}
	var got []string
	var err error
	if f := engine.Guard("SplitStatementToPieces", func() { got, err = sqlparser.SplitStatementToPieces(text) }); f != nil {
		return f
	}
	if err != nil {
		return engine.Fail("error", "SplitStatementToPieces: %v", err)
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", pieces) {
		return engine.Fail("pieces", "split into other pieces\nwant: %q\ngot:  %q", pieces, got)
	}
	rest := text
	for i, p := range pieces {
		var first string
		if f := engine.Guard("SplitStatement", func() { first, rest, err = sqlparser.SplitStatement(rest) }); f != nil {
			return f
		}
		if err != nil || first != p {
			return engine.Fail("first-piece", "SplitStatement %d gives %q (%v), not %q", i+1, first, err, p)
		}
	}
	if rest != "" {
		return engine.Fail("rest", "SplitStatement leaves %q", rest)
	}
	if !strict {
		return nil
	}

	// reading on from one tokenizer gives the statements one by one
	tk := sqlparser.NewStringTokenizer(text, sqlparser.ParserModeMysql)
	kind := "string"
	switch t.N(4) {
	case 1:
		tk, kind = sqlparser.NewTokenizer(strings.NewReader(text)), "stream"
	case 2:
		tk, kind = sqlparser.NewTokenizer(iotest.OneByteReader(strings.NewReader(text))), "one byte at a time"
	case 3:
		tk, kind = sqlparser.NewTokenizer(iotest.HalfReader(strings.NewReader(text))), "half reads"
	}
	t.Label("%s", kind)
	for i, p := range pieces {
		want, err := sqlparser.Parse(p)
		if err != nil {
			return engine.Fail("piece-invalid", "piece %q does not parse: %v", p, err)
		}
		var stmt sqlparser.Statement
		if f := engine.Guard("ParseNext", func() { stmt, err = sqlparser.ParseNext(tk) }); f != nil {
			return f
		}
		if err != nil {
			return engine.Fail("next-error", "ParseNext (%s) fails on piece %d %q: %v", kind, i+1, p, err)
		}
		if a, b := query.Tree(want), query.Tree(stmt); a != b {
			return engine.Fail("next-differs", "ParseNext (%s) reads piece %d differently\nwant: %s\ngot:  %s", kind, i+1, a, b)
		}
	}
	if stmt, err := sqlparser.ParseNext(tk); err != io.EOF {
		return engine.Fail("no-eof", "ParseNext (%s) after the last statement: %v, %v", kind, stmt, err)
	}
	t.Evals(3)
	return nil
}

var commentTexts = []string{"", " ", "a", " it's ", " ; ", " -- ", "*", "**", " \" ", "/", " vt+ A=1 ", "\n", " é ", "#", "!"}

func margins(t *engine.T) *engine.Failure {
	g := query.New(t)
	g.Depth = t.Range(1, 2)
	want, toks := g.Stmt()
	q := g.Text(toks)
	blank := func() string { return engine.Pick(t, []string{"", " ", "\n", " \t"}) }
	comment := func() string {
		s := engine.Pick(t, commentTexts)
		if s == "!" || s == "/" {
			s = " " + s
		}
		return "/*" + s + "*/"
	}
	var lead, trail string
	for i := t.N(3); i > 0; i-- {
		lead += comment() + blank()
	}
	for i := t.N(3); i > 0; i-- {
		trail += blank() + comment()
	}
	text := blank() + lead + q + trail + blank()
	t.Logf("text: %s", text)
	t.Sample(text)
	t.NonTrivial(text)
	var got string
	var c sqlparser.MarginComments
	if f := engine.Guard("SplitMarginComments", func() { got, c = sqlparser.SplitMarginComments(text) }); f != nil {
		return f
	}
	if got != q {
		return engine.Fail("query-changed", "the query %q became %q", q, got)
	}
	// blanks after the leading comments may go either way
	if strings.TrimSpace(c.Leading) != strings.TrimSpace(lead) || strings.TrimSpace(c.Trailing) != strings.TrimSpace(trail) {
		return engine.Fail("comments-changed", "the comments %q, %q became %q, %q", lead, trail, c.Leading, c.Trailing)
	}

	// comments of both kinds before a query
	lead = ""
	for i := t.N(4); i > 0; i-- {
		if t.Bool() {
			lead += comment() + blank()
		} else {
			lead += "--" + engine.Pick(t, []string{"", " a", " /* b */ ", "- ", " it's", " ;"}) + "\n" + blank()
		}
	}
	var stripped string
	if f := engine.Guard("StripLeadingComments", func() { stripped = sqlparser.StripLeadingComments(lead + q) }); f != nil {
		return f
	}
	if stripped != q {
		return engine.Fail("strip", "stripping leading comments of %q gives %q", lead+q, stripped)
	}
	wantType := map[string]int{"select": sqlparser.StmtSelect, "insert": sqlparser.StmtInsert, "replace": sqlparser.StmtReplace, "update": sqlparser.StmtUpdate, "delete": sqlparser.StmtDelete, "set": sqlparser.StmtSet, "stream": sqlparser.StmtStream}
	if w, ok := wantType[strings.ToLower(strings.TrimLeft(toks[0], "("))]; ok && len(toks) > 1 && !strings.HasPrefix(toks[1], "(") {
		first := q
		if i := strings.IndexAny(q, " \n\t"); i > 0 {
			first = q[:i]
		}
		if strings.EqualFold(first, toks[0]) {
			if p := sqlparser.Preview(lead + q); p != w {
				return engine.Fail("preview", "Preview of %q says %s, not %s", lead+q, sqlparser.StmtType(p), sqlparser.StmtType(w))
			}
			if dml := w == sqlparser.StmtInsert || w == sqlparser.StmtReplace || w == sqlparser.StmtUpdate || w == sqlparser.StmtDelete; sqlparser.IsDML(lead+q) != dml {
				return engine.Fail("preview", "IsDML of %q", lead+q)
			}
		}
	}

	// MySQL comments hold a version and a statement
	version := engine.Pick(t, []string{"", "4", "40101", "50708"})
	inner := engine.Pick(t, []string{"", "set a", "x 1", ";"})
	var v, in string
	mc := "/*!" + version + blank() + inner + blank() + "*/"
	if f := engine.Guard("ExtractMysqlComment", func() { v, in = sqlparser.ExtractMysqlComment(mc) }); f != nil {
		f.Msg = mc + ": " + f.Msg
		return f
	}
	if v != version || in != inner {
		return engine.Fail("mysql-comment", "%q became %q, %q", mc, v, in)
	}

	// what a MySQL comment holds belongs to the statement
	i := t.N(len(toks) + 1)
	j := i + t.N(len(toks)-i+1)
	special := append(query.Toks(nil), toks[:i]...)
	special = append(special, "/*!"+engine.Pick(t, []string{"", "40101", "50708"})+" "+strings.Join(toks[i:j], " ")+" */")
	special = append(special, toks[j:]...)
	sq := strings.Join(special, " ")
	if strings.Contains(strings.Join(toks[i:j], " "), "*/") || strings.Contains(strings.Join(toks[i:j], " "), "/*") {
		return nil
	}
	t.Logf("special: %s", sq)
	stmt, f := parseQ("a statement with a MySQL comment", sq)
	if f != nil {
		return f
	}
	if a, b := query.Tree(want), query.Tree(stmt); a != b {
		return engine.Fail("mysql-comment-lost", "a MySQL comment changes the statement\ntext: %s\nwant: %s\ngot:  %s", sq, a, b)
	}
	t.Evals(5)
	return nil
}

func directives(t *engine.T) *engine.Failure {
	want := map[string]interface{}{}
	var comments sqlparser.Comments
	seen := false
	for i := t.N(4); i > 0; i-- {
		switch t.N(3) {
		case 0:
			comments = append(comments, []byte("/*"+engine.Pick(t, commentTexts)+"*/"))
		case 1:
			comments = append(comments, []byte("-- "+engine.Pick(t, []string{"", "x", "vt+ A=1"})+"\n"))
		default:
			s := "/*vt+"
			seen = true
			for j := t.N(4); j > 0; j-- {
				k := engine.Pick(t, []string{"A", "B_2", "SKIP_QUERY_PLAN_CACHE", "QUERY_TIMEOUT_MS", "x"})
				v := engine.Pick(t, []string{"", "=1", "=0", "=42", "=true", "=false", "=abc", "=", "=a=b", "=-7"})
				s += engine.Pick(t, []string{" ", "\n", "  "}) + k + v
				switch v {
				case "":
					want[k] = true
				case "=1", "=0", "=42", "=-7":
					var n int
					fmt.Sscan(v[1:], &n)
					want[k] = n
				case "=true", "=false":
					want[k] = v == "=true"
				default:
					want[k] = v[1:]
				}
			}
			comments = append(comments, []byte(s+" */"))
		}
	}
	t.Logf("comments: %s", comments)
	t.Sample(fmt.Sprintf("%s", comments))
	var got sqlparser.CommentDirectives
	if f := engine.Guard("ExtractCommentDirectives", func() { got = sqlparser.ExtractCommentDirectives(comments) }); f != nil {
		return f
	}
	if seen {
		t.NonTrivial(fmt.Sprintf("%s", comments))
	}
	if seen != (got != nil) || len(got) != len(want) {
		return engine.Fail("directives", "read %v, want %v", got, want)
	}
	for k, v := range want {
		if got[k] != v {
			return engine.Fail("directives", "read %v, want %v", got, want)
		}
		if set := v == true || v == 1; got.IsSet(k) != set {
			return engine.Fail("is-set", "IsSet(%s) with %v", k, v)
		}
	}
	if got.IsSet("absent") {
		return engine.Fail("is-set", "IsSet of an absent directive")
	}
	var stmt sqlparser.Statement
	switch t.N(5) {
	case 0:
		stmt = &sqlparser.Select{Comments: comments}
	case 1:
		stmt = &sqlparser.Insert{Comments: comments}
	case 2:
		stmt = &sqlparser.Update{Comments: comments}
	case 3:
		stmt = &sqlparser.Delete{Comments: comments}
	default:
		if sqlparser.SkipQueryPlanCacheDirective(&sqlparser.Set{Comments: comments}) {
			return engine.Fail("skip", "SkipQueryPlanCacheDirective on SET")
		}
		return nil
	}
	w := want["SKIP_QUERY_PLAN_CACHE"]
	if got := sqlparser.SkipQueryPlanCacheDirective(stmt); got != (w == true || w == 1) {
		return engine.Fail("skip", "SkipQueryPlanCacheDirective = %v with %v", got, w)
	}
	t.Evals(3)
	return nil
}

func init() {
	engine.Register(&engine.Check{ID: "C20",
		Rule: "a case is a desired file of several statements, a text of several queries, a query with comments around it, or a list of comment directives; non-trivial: several statements whose text holds further separators, quotes or comment marks (files), more semicolons than statements (texts), distinct by text",
		Parts: []engine.Part{
			{Name: "files", Quick: 60000, Thorough: 5000000, Run: splitFile},
			{Name: "queries", Quick: 60000, Thorough: 5000000, Run: splitQueries},
			{Name: "margins", Quick: 60000, Thorough: 5000000, Run: margins},
			{Name: "directives", Quick: 30000, Thorough: 1000000, Run: directives},
		},
		Probes: []engine.Probe{
			{Name: "nested-mark-in-trailing-comment", Run: func() string {
				q, c := sqlparser.SplitMarginComments("select 1 /* a /* b */")
				if q != "select 1" {
					return fmt.Sprintf("SplitMarginComments(\"select 1 /* a /* b */\") = %q, %q", q, c.Trailing)
				}
				return ""
			}},
			{Name: "explain-cut-in-string", Run: func() string {
				tk := sqlparser.NewStringTokenizer("explain select ';'; select 1", sqlparser.ParserModeMysql)
				sqlparser.ParseNext(tk)
				if _, err := sqlparser.ParseNext(tk); err != nil {
					return fmt.Sprintf("ParseNext on \"explain select ';'; select 1\": %v", err)
				}
				return ""
			}},
		}})
}
