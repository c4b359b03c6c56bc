package checks

import (
	"github.com/k0kubun/sqldef/sqlparser"

	"verif.local/harness/engine"
	"verif.local/harness/query"
)

func parseQ(what, text string) (stmt sqlparser.Statement, f *engine.Failure) {
	var err error
	f = engine.Guard("the parser", func() { stmt, err = sqlparser.Parse(text) })
	if f == nil && err != nil {
		f = engine.Fail("parse-error", "%s does not parse: %v\n%s", what, err, text)
	}
	return
}

func formatQ(n sqlparser.SQLNode) (text string, f *engine.Failure) {
	f = engine.Guard("formatting", func() { text = sqlparser.String(n) })
	return
}

func queryRoundTrip(t *engine.T) *engine.Failure {
	g := query.New(t)
	want, toks := g.Stmt()
	text := g.Text(toks)
	t.Logf("statement: %s", text)
	t.Sample(text)
	if len(toks) > 6 {
		t.NonTrivial(text)
	}
	t.Label("%T", want)
	stmt, f := parseQ("a valid statement", text)
	if f != nil {
		return f
	}
	wt := query.Tree(want)
	if got := query.Tree(stmt); got != wt {
		return engine.Fail("parsed-differently", "parsed as another statement\ntext: %s\nwant: %s\ngot:  %s", text, wt, got)
	}
	out, f := formatQ(stmt)
	if f != nil {
		return f
	}
	t.Logf("formatted: %s", out)
	back, f := parseQ("the formatted text", out)
	if f != nil {
		return f
	}
	if got := query.Tree(back); got != wt {
		return engine.Fail("meaning-changed", "the formatted text parses to another statement\ntext:      %s\nformatted: %s\nwant: %s\ngot:  %s", text, out, wt, got)
	}
	again, f := formatQ(back)
	if f != nil {
		return f
	}
	if again != out {
		return engine.Fail("not-stable", "formatting is not stable\n%s\n%s", out, again)
	}
	t.Evals(2)
	return nil
}

// acceptedRoundTrip: whatever the parser accepts after damage to a statement.
func acceptedRoundTrip(t *engine.T) *engine.Failure {
	g := query.New(t)
	_, toks := g.Stmt()
	toks = mangle(t, toks)
	text := g.Text(toks)
	var stmt sqlparser.Statement
	var err error
	if f := engine.Guard("the parser", func() { stmt, err = sqlparser.Parse(text) }); f != nil {
		t.Logf("text: %s", text)
		return f
	}
	if err != nil {
		return nil
	}
	switch stmt.(type) {
	case sqlparser.SelectStatement, *sqlparser.Insert, *sqlparser.Update, *sqlparser.Delete, *sqlparser.Set, *sqlparser.Stream:
	default:
		return nil
	}
	if !query.Writable(stmt) {
		return nil
	}
	t.Logf("statement: %s", text)
	t.Sample(text)
	t.NonTrivial(text)
	want := query.Tree(stmt)
	out, f := formatQ(stmt)
	if f != nil {
		return f
	}
	t.Logf("formatted: %s", out)
	back, f := parseQ("the formatted text", out)
	if f != nil {
		return f
	}
	if got := query.Tree(back); got != want {
		return engine.Fail("meaning-changed", "the formatted text parses to another statement\ntext:      %s\nformatted: %s\nwant: %s\ngot:  %s", text, out, want, got)
	}
	t.Evals(1)
	return nil
}

// mangle deletes, repeats, swaps and replaces tokens.
func mangle(t *engine.T, toks query.Toks) query.Toks {
	toks = append(query.Toks(nil), toks...)
	for i := t.Range(1, 3); i > 0 && len(toks) > 2; i-- {
		a, b := t.N(len(toks)), t.N(len(toks))
		switch t.N(5) {
		case 0:
			toks = append(toks[:a:a], toks[a+1:]...)
		case 1:
			toks = append(toks[:a:a], append(query.Toks{toks[b]}, toks[a:]...)...)
		case 2:
			toks[a], toks[b] = toks[b], toks[a]
		case 3:
			toks[a] = toks[b]
		case 4:
			toks[a] = engine.Pick(t, soup)
		}
	}
	return toks
}

var soup = query.Toks{"(", ")", ",", "+", "-", "*", "=", "not", "and", "or", "null", "1", "-1", "'x'", "x", "select", "from", "t", "1.5", "is", "in", "default", "values", "binary", "interval", "case", "end", "distinct", "as", "union", "all", "where", "order", "by", "limit", "~", "!", "^", "day", "current_date", "true", "?", "collate", "like", "escape", "between", "key", "on", "ignore", "offset"}

func init() {
	engine.Register(&engine.Check{ID: "C18",
		Rule: "a case is a generated statement tree with one spelling: the parser must build that tree, its formatted text must parse to it again and be stable; or a damaged statement the parser still accepts, with the same round trip; non-trivial: more than 6 tokens, distinct by text",
		Parts: []engine.Part{
			{Name: "statements", Quick: 150000, Thorough: 20000000, Run: queryRoundTrip},
			{Name: "accepted", Quick: 100000, Thorough: 10000000, Run: acceptedRoundTrip},
		}})
}
