package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"

	"verif.local/harness/engine"
	"verif.local/harness/query"
)

// bindType is the type a literal's variable has; ok is false for literals that
// stay in the statement (numbers that do not fit, bit and hex literals).
func bindType(v *sqlparser.SQLVal) (querypb.Type, bool) {
	switch v.Type {
	case sqlparser.StrVal:
		return sqltypes.VarBinary, true
	case sqlparser.IntVal:
		_, err := strconv.ParseInt(string(v.Val), 0, 64)
		return sqltypes.Int64, err == nil
	case sqlparser.FloatVal:
		_, err := strconv.ParseFloat(string(v.Val), 64)
		return sqltypes.Float64, err == nil
	}
	return 0, false
}

type written struct{ text string }

func (w written) EncodeSQL(buf *bytes.Buffer) { buf.WriteString(w.text) }

func argNames(stmt sqlparser.Statement) map[string]bool {
	names := map[string]bool{}
	query.Values(stmt, func(v *sqlparser.SQLVal) {
		if v.Type == sqlparser.ValArg {
			names[string(v.Val[1:])] = true
		}
	}, func(l sqlparser.ListArg) { names[string(l[2:])] = true })
	return names
}

func normalise(t *engine.T) *engine.Failure {
	g := query.New(t)
	_, toks := g.Stmt()
	text := g.Text(toks)
	prefix := engine.Pick(t, []string{"bv", "v", "redacted", "x_"})
	t.Logf("statement: %s\nprefix: %s", text, prefix)
	t.Sample(text)
	orig, f := parseQ("a valid statement", text)
	if f != nil {
		return f
	}
	stmt, _ := parseQ("a valid statement", text)
	want := query.Tree(orig)
	given := argNames(orig)

	var found map[string]struct{}
	if f := engine.Guard("GetBindvars", func() { found = sqlparser.GetBindvars(stmt) }); f != nil {
		return f
	}
	for n := range found {
		if !given[n] {
			return engine.Fail("variables-invented", "GetBindvars reports %q", n)
		}
	}
	for n := range given {
		if _, ok := found[n]; !ok {
			return engine.Fail("variables-missed", "GetBindvars misses %q", n)
		}
	}

	vars := map[string]*querypb.BindVariable{}
	if f := engine.Guard("Normalize", func() { sqlparser.Normalize(stmt, vars, prefix) }); f != nil {
		return f
	}
	for n := range vars {
		if given[n] {
			return engine.Fail("name-collision", "the new variable %q was already in the statement", n)
		}
		if !strings.HasPrefix(n, prefix) {
			return engine.Fail("name-prefix", "the new variable %q lacks the prefix %q", n, prefix)
		}
	}
	norm, f := formatQ(stmt)
	if f != nil {
		return f
	}
	t.Logf("normalised: %s", norm)

	// every literal became a variable holding it, nothing else changed
	var bad *engine.Failure
	replaced := 0
	used := map[string]bool{}
	shared := map[string]string{}
	_, sel := orig.(*sqlparser.Select)
	d := query.Pairs(orig, stmt, func(a, b *sqlparser.SQLVal) {
		typ, conv := bindType(a)
		switch {
		case b.Type == sqlparser.ValArg && a.Type != sqlparser.ValArg:
			replaced++
			v := vars[string(b.Val[1:])]
			used[string(b.Val[1:])] = true
			if v == nil {
				bad = engine.Fail("no-value", "variable %s has no value", b.Val)
			} else if v.Type != typ || !bytes.Equal(v.Value, a.Val) {
				bad = engine.Fail("wrong-value", "literal %v %q became %s = %v %q", a.Type, a.Val, b.Val, v.Type, v.Value)
			}
			if k := fmt.Sprint(a.Type, string(a.Val)); sel && len(a.Val) <= 256 {
				if n, ok := shared[k]; ok && n != string(b.Val) {
					bad = engine.Fail("not-shared", "literal %q of a SELECT became both %s and %s", a.Val, n, b.Val)
				}
				shared[k] = string(b.Val)
			}
		case a.Type != b.Type || !bytes.Equal(a.Val, b.Val):
			bad = engine.Fail("literal-changed", "%v %q became %v %q", a.Type, a.Val, b.Type, b.Val)
		case conv && !inType(orig, a):
			bad = engine.Fail("literal-left", "literal %q stayed in the statement", a.Val)
		}
	}, func(a sqlparser.ValTuple, b sqlparser.ListArg) {
		replaced++
		v := vars[string(b[2:])]
		used[string(b[2:])] = true
		if v == nil || v.Type != querypb.Type_TUPLE || len(v.Values) != len(a) {
			bad = engine.Fail("wrong-list", "%s became %s = %v", sqlparser.String(a), b, v)
			return
		}
		for i, x := range a {
			l, ok := x.(*sqlparser.SQLVal)
			if !ok {
				bad = engine.Fail("wrong-list", "%s became %s", sqlparser.String(a), b)
				return
			}
			if typ, conv := bindType(l); !conv || v.Values[i].Type != typ || !bytes.Equal(v.Values[i].Value, l.Val) {
				bad = engine.Fail("wrong-list", "%s became %s = %v", sqlparser.String(a), b, v)
			}
		}
	})
	if d != "" {
		return engine.Fail("structure-changed", "normalising changed the statement: %s\nbefore: %s\nafter:  %s", d, want, query.Tree(stmt))
	}
	if bad != nil {
		return bad
	}
	for n := range vars {
		if !used[n] {
			return engine.Fail("variable-unused", "variable %q is used nowhere", n)
		}
	}
	if replaced > 1 {
		t.NonTrivial(text)
	}
	t.Label("%T", orig)

	// substituting the values gives the statement back
	extras := map[string]sqlparser.Encodable{}
	for n := range given {
		extras[n] = written{":" + n}
		extras[":"+n] = written{"::" + n}
	}
	var sub []byte
	var err error
	if f := engine.Guard("GenerateQuery", func() { sub, err = sqlparser.NewParsedQuery(stmt).GenerateQuery(vars, extras) }); f != nil {
		return f
	}
	if err != nil {
		return engine.Fail("substitution", "GenerateQuery: %v", err)
	}
	t.Logf("substituted: %s", sub)
	back, f := parseQ("the substituted text", string(sub))
	if f != nil {
		return f
	}
	if got := query.Tree(back); got != want {
		return engine.Fail("meaning-changed", "substituting the values back gives another statement\ntext:       %s\nnormalised: %s\nback:       %s\nwant: %s\ngot:  %s", text, norm, sub, want, got)
	}

	// a missing value is refused
	if len(vars) > 0 {
		var names []string
		for n := range vars {
			names = append(names, n)
		}
		sort.Strings(names)
		n := engine.Pick(t, names)
		v := vars[n]
		delete(vars, n)
		if _, err := sqlparser.NewParsedQuery(stmt).GenerateQuery(vars, extras); err == nil {
			return engine.Fail("missing-accepted", "a query was generated without a value for %s", n)
		}
		// and so is a list in place of a value, and the reverse
		if v.Type == querypb.Type_TUPLE {
			vars[n] = sqltypes.StringBindVariable("x")
		} else {
			vars[n] = &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{{Type: v.Type, Value: v.Value}}}
		}
		if _, err := sqlparser.NewParsedQuery(stmt).GenerateQuery(vars, extras); err == nil {
			return engine.Fail("kind-accepted", "a query was generated with a value of the wrong kind for %s", n)
		}
	}
	t.Evals(5)
	return nil
}

// inType: the value is a length in a type, not an operand.
func inType(stmt sqlparser.Statement, v *sqlparser.SQLVal) bool {
	found := false
	_ = sqlparser.Walk(func(n sqlparser.SQLNode) (bool, error) {
		if c, ok := n.(*sqlparser.ConvertType); ok && c != nil && (c.Length == v || c.Scale == v) {
			found = true
		}
		return true, nil
	}, stmt)
	return found
}

// skeleton describes a statement without its literals.
func skeleton(n interface{}) string {
	return query.Skeleton(n)
}

func redact(t *engine.T) *engine.Failure {
	g := query.New(t)
	g.PlainLits, g.Args = true, false
	want, toks := g.Stmt()
	lead := engine.Pick(t, []string{"", "", "/* lead */ ", "\n /* a */ /* b */\n"})
	trail := engine.Pick(t, []string{"", "", " /* trail */", "/* a */ /* b */ \n"})
	text := lead + g.Text(toks) + trail
	t.Logf("statement: %s", text)
	t.Sample(text)
	var out string
	var err error
	if f := engine.Guard("RedactSQLQuery", func() { out, err = sqlparser.RedactSQLQuery(text) }); f != nil {
		return f
	}
	if err != nil {
		return engine.Fail("error", "RedactSQLQuery: %v\n%s", err, text)
	}
	t.Logf("redacted: %s", out)
	if len(g.Lits) > 1 {
		t.NonTrivial(text)
	}
	for _, l := range g.Lits {
		if (l[0] == '7' || strings.HasPrefix(l, "secret")) && strings.Contains(out, l) {
			return engine.Fail("literal-shown", "the redacted query shows %q\n%s", l, out)
		}
	}
	for _, c := range []string{lead, trail} {
		if !strings.Contains(out, strings.TrimSpace(c)) {
			return engine.Fail("comment-lost", "the comment %q is missing in %q", c, out)
		}
	}
	if _, set := want.(*sqlparser.Set); set {
		return nil // SET NAMES :v is not in the grammar
	}
	back, f := parseQ("the redacted text", out)
	if f != nil {
		return f
	}
	if a, b := skeleton(want), skeleton(back); a != b {
		return engine.Fail("structure-changed", "the redacted query has another structure\nwant: %s\ngot:  %s", a, b)
	}
	t.Evals(len(g.Lits) + 2)
	return nil
}

// given: bind variables of the statement are replaced by their values.
func substitute(t *engine.T) *engine.Failure {
	g := query.New(t)
	_, toks := g.Stmt()
	text := g.Text(toks)
	t.Logf("statement: %s", text)
	t.Sample(text)
	stmt, f := parseQ("a valid statement", text)
	if f != nil {
		return f
	}
	vars := map[string]*querypb.BindVariable{}
	lit := map[string]*sqlparser.SQLVal{}
	n := 0
	query.Values(stmt, func(v *sqlparser.SQLVal) {
		if v.Type != sqlparser.ValArg {
			return
		}
		n++
		name := string(v.Val[1:])
		if vars[name] != nil {
			return
		}
		switch t.N(4) {
		case 0:
			s := engine.Pick(t, []string{"", "a", "it's", "x\\y", "a\nb\x00", "\xff", "\"", ":v1", "%"})
			vars[name], lit[name] = sqltypes.StringBindVariable(s), sqlparser.NewStrVal([]byte(s))
		case 1:
			i := engine.Pick(t, []int64{0, 1, 7, 9223372036854775807})
			vars[name], lit[name] = sqltypes.Int64BindVariable(i), sqlparser.NewIntVal([]byte(fmt.Sprint(i)))
		case 2:
			vars[name], lit[name] = sqltypes.Float64BindVariable(1.5e30), sqlparser.NewFloatVal([]byte("1.5e+30"))
		default:
			s := engine.Pick(t, []string{"b", "''", "\\"})
			vars[name], lit[name] = sqltypes.BytesBindVariable([]byte(s)), sqlparser.NewStrVal([]byte(s))
		}
	}, func(l sqlparser.ListArg) {
		if vars[string(l[2:])] == nil {
			vars[string(l[2:])] = &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{{Type: sqltypes.Int64, Value: []byte("1")}, {Type: sqltypes.VarChar, Value: []byte("a'b")}}}
		}
	})
	mixed := false
	query.Values(stmt, func(v *sqlparser.SQLVal) {
		if v.Type == sqlparser.ValArg && vars[string(v.Val[1:])].Type == querypb.Type_TUPLE {
			mixed = true
		}
	}, func(l sqlparser.ListArg) {
		if vars[string(l[2:])].Type != querypb.Type_TUPLE {
			mixed = true
		}
	})
	if n == 0 {
		return nil
	}
	t.NonTrivial(text)
	var sub []byte
	var err error
	if f := engine.Guard("GenerateQuery", func() { sub, err = sqlparser.NewParsedQuery(stmt).GenerateQuery(vars, nil) }); f != nil {
		return f
	}
	if mixed {
		if err == nil {
			return engine.Fail("kind-accepted", "one name serves as value and as list, and a query was generated: %s", sub)
		}
		return nil
	}
	if err != nil {
		return engine.Fail("substitution", "GenerateQuery: %v", err)
	}
	t.Logf("substituted: %s", sub)
	back, f := parseQ("the substituted text", string(sub))
	if f != nil {
		return f
	}
	var bad *engine.Failure
	d := query.Pairs(back, stmt, func(a, b *sqlparser.SQLVal) {
		w := b
		if b.Type == sqlparser.ValArg {
			w = lit[string(b.Val[1:])]
		}
		if w == nil || a.Type != w.Type || !bytes.Equal(a.Val, w.Val) {
			bad = engine.Fail("wrong-value", "%s stands for %q, the query has %q", b.Val, w.Val, a.Val)
		}
	}, func(a sqlparser.ValTuple, b sqlparser.ListArg) {
		if s := sqlparser.String(a); s != `(1, 'a\'b')` {
			bad = engine.Fail("wrong-list", "%s became %s", b, s)
		}
	})
	if d != "" && !signed(stmt) {
		return engine.Fail("structure-changed", "substituting values changed the statement: %s\nwith variables: %s\nwith values:    %s", d, query.Tree(stmt), query.Tree(back))
	}
	if bad != nil && !signed(stmt) {
		return bad
	}
	t.Evals(2)
	return nil
}

// signed: a sign stands before a variable; the parser joins signs and numbers.
func signed(stmt sqlparser.Statement) bool {
	found := false
	_ = sqlparser.Walk(func(n sqlparser.SQLNode) (bool, error) {
		if u, ok := n.(*sqlparser.UnaryExpr); ok && (u.Operator == "-" || u.Operator == "+") {
			found = true
		}
		return true, nil
	}, stmt)
	return found
}

func init() {
	engine.Register(&engine.Check{ID: "C19",
		Rule: "a case is a generated statement: normalised, compared value by value and substituted back; redacted; or with its own variables replaced by values; non-trivial: at least two literals (or one variable) replaced, distinct by text",
		Parts: []engine.Part{
			{Name: "normalise", Quick: 100000, Thorough: 10000000, Run: normalise},
			{Name: "redact", Quick: 80000, Thorough: 8000000, Run: redact},
			{Name: "substitute", Quick: 60000, Thorough: 6000000, Run: substitute},
		},
		Probes: []engine.Probe{
			{Name: "separator-not-redacted", Run: func() string {
				return shows("select group_concat(a separator 'secret') from t", "secret")
			}},
			{Name: "leading-zero-not-redacted", Run: func() string { return shows("select 089 from t", "089") }},
			{Name: "big-number-not-redacted", Run: func() string {
				return shows("select 98765432109876543210 from t", "98765432109876543210")
			}},
			{Name: "hex-not-redacted", Run: func() string { return shows("select x'abcd', 0xabcd, b'1010' from t", "abcd") }},
		}})
}

func shows(q, lit string) string {
	out, err := sqlparser.RedactSQLQuery(q)
	if err == nil && strings.Contains(out, lit) {
		return fmt.Sprintf("redacting %q gives %q", q, out)
	}
	return ""
}
