// Package query generates statements of the query grammar: the tree the parser
// must build, together with one of its spellings.
package query

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/k0kubun/sqldef/sqlparser"

	"verif.local/harness/engine"
)

// Toks is a token sequence.
type Toks []string

// G generates.
type G struct {
	T *engine.T
	// Depth bounds nesting.
	Depth int
	// Args allows bind variables.
	Args bool
	// Lits collects the literals (strings, integers, floats) written.
	Lits []string
	// PlainLits: literals that are easily told apart from everything else.
	PlainLits bool
	upper     int
	nlit      int
}

// New makes a generator.
func New(t *engine.T) *G {
	return &G{T: t, Depth: t.Range(1, 4), Args: true, upper: engine.Pick(t, []int{0, 50, 100})}
}

func (g *G) kw(words ...string) Toks {
	var out Toks
	for _, w := range words {
		for _, x := range strings.Fields(w) {
			if g.upper > 0 && g.T.Chance(g.upper) {
				x = strings.ToUpper(x)
			}
			out = append(out, x)
		}
	}
	return out
}

func cat(xs ...interface{}) Toks {
	var out Toks
	for _, x := range xs {
		switch x := x.(type) {
		case string:
			out = append(out, x)
		case Toks:
			out = append(out, x...)
		}
	}
	return out
}

// Text joins tokens.
func (g *G) Text(ts Toks) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			prev := ts[i-1]
			tight := t == ")" || t == "," || prev == "(" || t == "=" || prev == "=" || t == "("
			glue := t == "." || prev == "."
			switch {
			case glue:
			case strings.HasPrefix(prev, "/*") || strings.HasPrefix(t, "/*"):
				sb.WriteByte(' ')
			case tight && g.T.Chance(40):
			default:
				switch g.T.N(30) {
				case 1:
					sb.WriteString("\n")
				case 2:
					sb.WriteString("\t  ")
				case 3:
					if !hasComments(prev) {
						sb.WriteString(" /* a ; 'b' */ ")
					} else {
						sb.WriteByte(' ')
					}
				case 4:
					if !hasComments(prev) {
						sb.WriteString(" -- it's; c\n")
					} else {
						sb.WriteByte(' ')
					}
				default:
					sb.WriteByte(' ')
				}
			}
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// hasComments: comments after this word belong to the tree.
func hasComments(w string) bool {
	switch strings.ToLower(w) {
	case "select", "insert", "replace", "update", "delete", "set", "stream":
		return true
	}
	return false
}

var plainNames = []string{"a", "b", "c1", "t", "u", "foo", "Bar", "_x", "status1", "col_2", "Value1", "x9"}
var oddNames = []string{"my col", "my-col", "select", "Order", "from", "a.b", "1st", "it's", "ba`ck", "größe", "日本", "a\"q", "%", "drop", "key", "TABLE", "a\\b", "group", "-", " lead", "a;b", "/*x*/", "--"}
var quotedKw = map[string]bool{}

func (g *G) name() string {
	if g.T.Chance(25) {
		return engine.Pick(g.T, oddNames)
	}
	return engine.Pick(g.T, plainNames)
}

func isPlain(n string) bool {
	for _, p := range plainNames {
		if p == n {
			return true
		}
	}
	return false
}

func (g *G) id(n string) string {
	if isPlain(n) && !g.T.Chance(20) {
		return n
	}
	return "`" + strings.ReplaceAll(n, "`", "``") + "`"
}

func (g *G) tableIdent() (sqlparser.TableIdent, Toks) {
	n := g.name()
	return sqlparser.NewTableIdent(n), Toks{g.id(n)}
}

func (g *G) colIdent() (sqlparser.ColIdent, Toks) {
	n := g.name()
	return sqlparser.NewColIdent(n), Toks{g.id(n)}
}

func (g *G) tableName() (sqlparser.TableName, Toks) {
	n, s := g.tableIdent()
	if g.T.Chance(20) {
		q, s2 := g.tableIdent()
		return sqlparser.TableName{Qualifier: q, Name: n}, cat(s2, ".", s)
	}
	return sqlparser.TableName{Name: n}, s
}

func (g *G) colName() (*sqlparser.ColName, Toks) {
	n, s := g.colIdent()
	switch g.T.N(6) {
	case 4:
		q, s2 := g.tableIdent()
		return &sqlparser.ColName{Name: n, Qualifier: sqlparser.TableName{Name: q}}, cat(s2, ".", s)
	case 5:
		q, s2 := g.tableIdent()
		r, s3 := g.tableIdent()
		return &sqlparser.ColName{Name: n, Qualifier: sqlparser.TableName{Name: q, Qualifier: r}}, cat(s3, ".", s2, ".", s)
	}
	return &sqlparser.ColName{Name: n}, s
}

var strs = []string{"", "a", "it's", "x\\y", "a\nb", "\x00", "\x1a", "\"", "`", "%_", "é", "\xff\xfe", "drop table", "-- no", "/* no */", ";", "\t\r", "null", "'", "''", "\\", "long " + strings.Repeat("z", 300), "1", ":v1"}

// Str spells a string literal.
func (g *G) Str(s string) string {
	q := engine.Pick(g.T, []string{"'", "'", "'", "\""})
	var sb strings.Builder
	sb.WriteString(q)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\':
			sb.WriteString("\\\\")
		case c == q[0]:
			sb.WriteString(engine.Pick(g.T, []string{q + q, "\\" + q}))
		case c == '\n' && g.T.Bool():
			sb.WriteString("\\n")
		case c == 0 && g.T.Bool():
			sb.WriteString("\\0")
		case c == 0x1a && g.T.Bool():
			sb.WriteString("\\Z")
		case c == '\t' && g.T.Bool():
			sb.WriteString("\\t")
		case c == '\r' && g.T.Bool():
			sb.WriteString("\\r")
		case c >= 'A' && c <= 'Y' && c != 'N' && g.T.Chance(5), (c == '"' || c == '\'') && g.T.Chance(20):
			sb.WriteString("\\" + string(c))
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteString(q)
	return sb.String()
}

func (g *G) strVal() (*sqlparser.SQLVal, Toks) {
	s := engine.Pick(g.T, strs)
	if g.PlainLits {
		g.nlit++
		s = fmt.Sprintf("secret%dq", g.nlit)
	} else if g.T.Chance(20) {
		b := make([]byte, g.T.N(6))
		for i := range b {
			b[i] = byte(g.T.N(256))
		}
		s = string(b)
	}
	g.Lits = append(g.Lits, s)
	return sqlparser.NewStrVal([]byte(s)), Toks{g.Str(s)}
}

func (g *G) value() (sqlparser.Expr, Toks) {
	switch g.T.N(12) {
	case 0, 1, 2:
		s := engine.Pick(g.T, []string{"0", "1", "2", "10", "007", "18446744073709551615", "42"})
		if g.PlainLits {
			g.nlit++
			s = fmt.Sprintf("7%03d7", g.nlit)
		}
		g.Lits = append(g.Lits, s)
		return sqlparser.NewIntVal([]byte(s)), Toks{s}
	case 3, 4, 5:
		return g.strVal()
	case 6:
		s := engine.Pick(g.T, []string{"1.5", "0.0", ".25", "1e10", "1.2E-3", "3.", "12e+2"})
		if g.PlainLits {
			g.nlit++
			s = fmt.Sprintf("7%03d.7", g.nlit)
		}
		g.Lits = append(g.Lits, s)
		return sqlparser.NewFloatVal([]byte(s)), Toks{s}
	case 7:
		s := engine.Pick(g.T, []string{"0xff", "0x0", "0XaB"})
		return sqlparser.NewHexNum([]byte(s)), Toks{s}
	case 8:
		s := engine.Pick(g.T, []string{"ff", "", "0aB1"})
		return sqlparser.NewHexVal([]byte(s)), Toks{engine.Pick(g.T, []string{"x", "X"}) + "'" + s + "'"}
	case 9:
		s := engine.Pick(g.T, []string{"101", "0", ""})
		return sqlparser.NewBitVal([]byte(s)), Toks{engine.Pick(g.T, []string{"b", "B"}) + "'" + s + "'"}
	case 10:
		if !g.Args {
			break
		}
		s := engine.Pick(g.T, []string{":v1", ":bv2", ":a.b", ":_x", ":bv1", ":redacted1"})
		return sqlparser.NewValArg([]byte(s)), Toks{s}
	}
	return &sqlparser.NullVal{}, g.kw("null")
}

// levels of value expressions
const (
	lOr = iota
	lAnd
	lNot
	lIs   // expression IS ...
	lCond // comparison
	lBitOr
	lBitAnd
	lShift
	lAdd
	lMul
	lXor
	lUnary
	lCollate
	lBinary
	lAtom
)

type node struct {
	e sqlparser.Expr
	s Toks
	l int
}

var binops = []struct {
	op, text string
	l        int
}{{"|", "|", lBitOr}, {"&", "&", lBitAnd}, {"<<", "<<", lShift}, {">>", ">>", lShift}, {"+", "+", lAdd}, {"-", "-", lAdd}, {"*", "*", lMul}, {"/", "/", lMul}, {"div", "div", lMul}, {"%", "%", lMul}, {"%", "mod", lMul}, {"^", "^", lXor}}

// at gives an expression usable where level l is needed.
func (g *G) at(n node, l int) node {
	if n.l < l || g.T.Chance(8) {
		if _, tuple := n.e.(sqlparser.ValTuple); tuple {
			return n
		}
		return node{&sqlparser.ParenExpr{Expr: n.e}, cat("(", n.s, ")"), lAtom}
	}
	return n
}

// V generates a value expression.
func (g *G) V(d int, l int) node { return g.at(g.v(d), l) }

// E generates an expression.
func (g *G) E(d int, l int) node { return g.at(g.e(d), l) }

func (g *G) e(d int) node {
	if d <= 0 {
		return g.v(0)
	}
	switch g.T.N(10) {
	case 0, 1:
		return g.v(d)
	case 2:
		a, b := g.E(d-1, lAnd), g.E(d-1, lNot)
		op := g.kw("and")
		if g.T.Chance(10) {
			op = Toks{"&&"}
		}
		return node{&sqlparser.AndExpr{Left: a.e, Right: b.e}, cat(a.s, op, b.s), lAnd}
	case 3:
		a, b := g.E(d-1, lOr), g.E(d-1, lAnd)
		op := g.kw("or")
		if g.T.Chance(10) {
			op = Toks{"||"}
		}
		return node{&sqlparser.OrExpr{Left: a.e, Right: b.e}, cat(a.s, op, b.s), lOr}
	case 4:
		a := g.E(d-1, lNot)
		return node{&sqlparser.NotExpr{Expr: a.e}, cat(g.kw("not"), a.s), lNot}
	case 5:
		a := g.E(d-1, lIs)
		op := engine.Pick(g.T, []string{"is null", "is not null", "is true", "is not true", "is false", "is not false"})
		return node{&sqlparser.IsExpr{Operator: op, Expr: a.e}, cat(a.s, g.kw(op)), lIs}
	case 6, 7:
		a, b := g.V(d-1, lBitOr), g.V(d-1, lBitOr)
		op := engine.Pick(g.T, []string{"=", "<", ">", "<=", ">=", "!=", "<=>", "like", "not like", "regexp", "not regexp"})
		x := &sqlparser.ComparisonExpr{Operator: op, Left: a.e, Right: b.e}
		text := g.kw(op)
		if op == "!=" && g.T.Bool() {
			text = Toks{"<>"}
		}
		s := cat(a.s, text, b.s)
		if strings.HasSuffix(op, "like") && g.T.Chance(30) {
			c := g.V(d-1, lBitOr)
			x.Escape = c.e
			s = cat(s, g.kw("escape"), c.s)
		}
		return node{x, s, lCond}
	case 8:
		a := g.V(d-1, lBitOr)
		op := engine.Pick(g.T, []string{"in", "not in"})
		x := &sqlparser.ComparisonExpr{Operator: op, Left: a.e}
		var s Toks
		switch k := g.T.N(5); {
		case k == 3 && g.Args:
			n := engine.Pick(g.T, []string{"::list", "::bv3", "::l.x"})
			x.Right, s = sqlparser.ListArg(n), Toks{n}
		case k == 4 && d > 1:
			q, qs := g.selectStmt(d-2, false)
			x.Right, s = &sqlparser.Subquery{Select: q}, cat("(", qs, ")")
		default:
			var vt sqlparser.ValTuple
			for i := g.T.Range(1, 3); i > 0; i-- {
				b := g.E(g.T.N(d), lOr)
				if len(vt) > 0 {
					s = append(s, ",")
				}
				vt, s = append(vt, b.e), append(s, b.s...)
			}
			x.Right, s = vt, cat("(", s, ")")
		}
		return node{x, cat(a.s, g.kw(op), s), lCond}
	}
	if g.T.Bool() && d > 1 {
		q, qs := g.selectStmt(d-2, false)
		return node{&sqlparser.ExistsExpr{Subquery: &sqlparser.Subquery{Select: q}}, cat(g.kw("exists"), "(", qs, ")"), lCond}
	}
	a, b, c := g.V(d-1, lBitOr), g.V(d-1, lBitOr), g.V(d-1, lBitOr)
	op := engine.Pick(g.T, []string{"between", "not between"})
	return node{&sqlparser.RangeCond{Operator: op, Left: a.e, From: b.e, To: c.e}, cat(a.s, g.kw(op), b.s, g.kw("and"), c.s), lCond}
}

func (g *G) atom() node {
	switch g.T.N(8) {
	case 0, 1, 2:
		c, s := g.colName()
		return node{c, s, lAtom}
	case 7:
		b := g.T.Bool()
		return node{sqlparser.BoolVal(b), g.kw(fmt.Sprint(b)), lAtom}
	}
	v, s := g.value()
	return node{v, s, lAtom}
}

func (g *G) v(d int) node {
	if d <= 0 {
		return g.atom()
	}
	switch g.T.N(14) {
	case 0, 1:
		return g.atom()
	case 2, 3, 4, 5:
		o := engine.Pick(g.T, binops)
		a, b := g.V(d-1, o.l), g.V(d-1, o.l+1)
		return node{&sqlparser.BinaryExpr{Operator: o.op, Left: a.e, Right: b.e}, cat(a.s, g.kw(o.text), b.s), o.l}
	case 6:
		op := engine.Pick(g.T, []string{"-", "-", "+", "~", "!"})
		a := g.V(d-1, lUnary)
		if _, ok := a.e.(*sqlparser.CollateExpr); ok && op == "-" {
			a = node{&sqlparser.ParenExpr{Expr: a.e}, cat("(", a.s, ")"), lAtom}
		}
		if v, ok := a.e.(*sqlparser.SQLVal); ok {
			switch {
			case v.Type == sqlparser.IntVal && op == "+":
				return node{v, cat("+", a.s), lUnary}
			case v.Type == sqlparser.IntVal && op == "-":
				if v.Val[0] == '-' {
					return node{sqlparser.NewIntVal(v.Val[1:]), cat("-", a.s), lUnary}
				}
				s := cat("-", a.s)
				if len(a.s) == 1 && g.T.Bool() {
					s = Toks{"-" + a.s[0]}
				}
				return node{sqlparser.NewIntVal(append([]byte("-"), v.Val...)), s, lUnary}
			case op == "-" && (v.Type == sqlparser.FloatVal || v.Type == sqlparser.HexNum) && v.Val[0] != '-' && v.Val[0] != '.':
				nv := *v
				nv.Val = append([]byte("-"), v.Val...)
				return node{&nv, Toks{"-" + a.s[0]}, lUnary}
			}
		}
		s := cat(op, a.s)
		return node{&sqlparser.UnaryExpr{Operator: op, Expr: a.e}, s, lUnary}
	case 7:
		op := engine.Pick(g.T, []string{"binary ", "_binary "})
		a := g.V(d-1, lUnary)
		return node{&sqlparser.UnaryExpr{Operator: op, Expr: a.e}, cat(g.kw(op), a.s), lUnary}
	case 8:
		a := g.V(d-1, lCollate)
		c := engine.Pick(g.T, []string{"utf8_bin", "latin1_swedish_ci"})
		return node{&sqlparser.CollateExpr{Expr: a.e, Charset: c}, cat(a.s, g.kw("collate"), c), lCollate}
	case 9:
		// column -> value
		c, s := g.colName()
		v, s2 := g.value()
		op := engine.Pick(g.T, []string{"->", "->>"})
		return node{&sqlparser.BinaryExpr{Operator: op, Left: c, Right: v}, cat(s, op, s2), lAtom}
	case 10:
		var vt sqlparser.ValTuple
		var s Toks
		for i := g.T.Range(2, 3); i > 0; i-- {
			b := g.E(d-1, lOr)
			if len(vt) > 0 {
				s = append(s, ",")
			}
			vt, s = append(vt, b.e), append(s, b.s...)
		}
		return node{vt, cat("(", s, ")"), lAtom}
	case 11:
		if d > 1 {
			q, qs := g.selectStmt(d-2, false)
			return node{&sqlparser.Subquery{Select: q}, cat("(", qs, ")"), lAtom}
		}
	}
	return g.fn(d)
}

func (g *G) intTok() (*sqlparser.SQLVal, string) {
	s := engine.Pick(g.T, []string{"1", "3", "10"})
	return sqlparser.NewIntVal([]byte(s)), s
}

func (g *G) convertType() (*sqlparser.ConvertType, Toks) {
	opt := func(ct *sqlparser.ConvertType, s Toks) (*sqlparser.ConvertType, Toks) {
		if g.T.Bool() {
			v, x := g.intTok()
			ct.Length = v
			s = cat(s, "(", x, ")")
		}
		return ct, s
	}
	switch g.T.N(8) {
	case 0:
		return opt(&sqlparser.ConvertType{Type: "binary"}, g.kw("binary"))
	case 1:
		ct, s := opt(&sqlparser.ConvertType{Type: "char", Operator: sqlparser.CharacterSetStr}, g.kw("char"))
		if g.T.Bool() {
			ct.Charset = "utf8"
			s = cat(s, g.kw("character set"), "utf8")
		}
		return ct, s
	case 2:
		ct, s := opt(&sqlparser.ConvertType{Type: "char", Charset: "ascii"}, g.kw("char"))
		return ct, cat(s, "ascii")
	case 3:
		return opt(&sqlparser.ConvertType{Type: "datetime"}, g.kw("datetime"))
	case 4:
		ct, s := &sqlparser.ConvertType{Type: "decimal"}, g.kw("decimal")
		if g.T.Bool() {
			v, x := g.intTok()
			ct.Length = v
			s = cat(s, "(", x)
			if g.T.Bool() {
				v, x := g.intTok()
				ct.Scale = v
				s = cat(s, ",", x)
			}
			s = cat(s, ")")
		}
		return ct, s
	case 5:
		return opt(&sqlparser.ConvertType{Type: "nchar"}, g.kw("nchar"))
	case 6:
		ty := engine.Pick(g.T, []string{"signed", "unsigned"})
		s := g.kw(ty)
		if g.T.Bool() {
			s = cat(s, g.kw("integer"))
		}
		return &sqlparser.ConvertType{Type: ty}, s
	}
	ty := engine.Pick(g.T, []string{"date", "json", "time"})
	return &sqlparser.ConvertType{Type: ty}, g.kw(ty)
}

func (g *G) fn(d int) node {
	at := func(e sqlparser.Expr, s Toks) node { return node{e, s, lAtom} }
	switch g.T.N(14) {
	case 0, 1, 2:
		n := engine.Pick(g.T, []string{"count", "max", "Foo", "coalesce", "concat", "rand", "f_1"})
		f := &sqlparser.FuncExpr{Name: sqlparser.NewColIdent(n)}
		s := Toks{n}
		if g.T.Chance(10) {
			q, qs := g.tableIdent()
			f.Qualifier, s = q, cat(qs, ".", n)
		} else if g.T.Chance(15) {
			f.Distinct = true
		}
		var as Toks
		if f.Distinct || g.T.Chance(85) {
			f.Exprs, as = g.selectExprs(d-1, true)
		}
		if f.Distinct {
			as = cat(g.kw("distinct"), as)
		}
		return at(f, cat(s, "(", as, ")"))
	case 3:
		n := engine.Pick(g.T, []string{"left", "right", "if", "mod", "replace", "database"})
		es, s := g.selectExprs(d-1, true)
		return at(&sqlparser.FuncExpr{Name: sqlparser.NewColIdent(n), Exprs: es}, cat(g.kw(n), "(", s, ")"))
	case 4:
		a := g.E(d-1, lOr)
		ct, s := g.convertType()
		if g.T.Bool() {
			return at(&sqlparser.ConvertExpr{Expr: a.e, Type: ct}, cat(g.kw("convert"), "(", a.s, ",", s, ")"))
		}
		return at(&sqlparser.ConvertExpr{Expr: a.e, Type: ct}, cat(g.kw("cast"), "(", a.s, g.kw("as"), s, ")"))
	case 5:
		a := g.E(d-1, lOr)
		return at(&sqlparser.ConvertUsingExpr{Expr: a.e, Type: "utf8mb4"}, cat(g.kw("convert"), "(", a.s, g.kw("using"), "utf8mb4", ")"))
	case 6:
		c, s := g.colName()
		a := g.V(d-1, lBitOr)
		x := &sqlparser.SubstrExpr{Name: c, From: a.e}
		k := g.kw(engine.Pick(g.T, []string{"substr", "substring"}))
		switch g.T.N(3) {
		case 1:
			b := g.V(d-1, lBitOr)
			x.To = b.e
			return at(x, cat(k, "(", s, ",", a.s, ",", b.s, ")"))
		case 2:
			b := g.V(d-1, lBitOr)
			x.To = b.e
			return at(x, cat(k, "(", s, g.kw("from"), a.s, g.kw("for"), b.s, ")"))
		}
		return at(x, cat(k, "(", s, ",", a.s, ")"))
	case 7:
		es, s := g.selectExprs(d-1, true)
		a := g.V(d-1, lBitOr)
		opt := engine.Pick(g.T, []string{"", " in boolean mode", " in natural language mode", " in natural language mode with query expansion", " with query expansion"})
		return at(&sqlparser.MatchExpr{Columns: es, Expr: a.e, Option: opt}, cat(g.kw("match"), "(", s, ")", g.kw("against"), "(", a.s, g.kw(opt), ")"))
	case 8:
		x := &sqlparser.GroupConcatExpr{}
		var s Toks
		if g.T.Bool() {
			x.Distinct, s = "distinct ", g.kw("distinct")
		}
		es, s2 := g.selectExprs(d-1, true)
		x.Exprs, s = es, cat(s, s2)
		if g.T.Bool() {
			o, os := g.orderBy(d - 1)
			x.OrderBy, s = o, cat(s, os)
		}
		if g.T.Bool() {
			v, vs := g.strVal()
			if g.PlainLits { // known finding: separators are not redacted
				g.Lits = g.Lits[:len(g.Lits)-1]
			}
			x.Separator = " separator " + sqlparser.String(v)
			s = cat(s, g.kw("separator"), vs)
		}
		return at(x, cat(g.kw("group_concat"), "(", s, ")"))
	case 9, 10:
		x := &sqlparser.CaseExpr{}
		s := g.kw("case")
		if g.T.Bool() {
			a := g.E(d-1, lOr)
			x.Expr, s = a.e, cat(s, a.s)
		}
		for i := g.T.Range(1, 2); i > 0; i-- {
			a, b := g.E(d-1, lOr), g.E(d-1, lOr)
			x.Whens = append(x.Whens, &sqlparser.When{Cond: a.e, Val: b.e})
			s = cat(s, g.kw("when"), a.s, g.kw("then"), b.s)
		}
		if g.T.Bool() {
			a := g.E(d-1, lOr)
			x.Else, s = a.e, cat(s, g.kw("else"), a.s)
		}
		return at(x, cat(s, g.kw("end")))
	case 11:
		c, s := g.colName()
		return at(&sqlparser.ValuesFuncExpr{Name: c}, cat(g.kw("values"), "(", s, ")"))
	case 12:
		n := engine.Pick(g.T, []string{"current_timestamp", "utc_timestamp", "utc_time", "utc_date", "localtime", "localtimestamp", "current_date", "current_time"})
		return at(&sqlparser.FuncExpr{Name: sqlparser.NewColIdent(n)}, cat(g.kw(n), "(", ")"))
	}
	a := g.V(d-1, lBitOr)
	u := engine.Pick(g.T, []string{"day", "hour", "minute"})
	return at(&sqlparser.IntervalExpr{Expr: a.e, Unit: u}, cat(g.kw("interval"), a.s, u))
}

func (g *G) selectExprs(d int, arg bool) (sqlparser.SelectExprs, Toks) {
	var out sqlparser.SelectExprs
	var s Toks
	for i := g.T.Range(1, 3); i > 0; i-- {
		if len(out) > 0 {
			s = append(s, ",")
		}
		switch k := g.T.N(10); {
		case k == 8:
			out, s = append(out, &sqlparser.StarExpr{}), append(s, "*")
			continue
		case k == 9:
			n, ns := g.tableName()
			out, s = append(out, &sqlparser.StarExpr{TableName: n}), cat(s, ns, ".", "*")
			continue
		}
		e := g.E(d, lOr)
		x := &sqlparser.AliasedExpr{Expr: e.e}
		s = append(s, e.s...)
		if !arg && g.T.Chance(35) {
			n, ns := g.colIdent()
			x.As = n
			switch g.T.N(3) {
			case 1:
				if g.T.Bool() {
					v := engine.Pick(g.T, []string{"al", "it's", "two words"})
					x.As, ns = sqlparser.NewColIdent(v), Toks{g.Str(v)}
				}
				fallthrough
			case 0:
				s = cat(s, g.kw("as"), ns)
			case 2:
				s = cat(s, g.kw("as"), ns)
			}
		}
		out = append(out, x)
	}
	return out, s
}

func (g *G) orderBy(d int) (sqlparser.OrderBy, Toks) {
	var out sqlparser.OrderBy
	s := g.kw("order by")
	for i := g.T.Range(1, 2); i > 0; i-- {
		if len(out) > 0 {
			s = append(s, ",")
		}
		e := g.E(d, lOr)
		o := &sqlparser.Order{Expr: e.e, Direction: "asc"}
		s = append(s, e.s...)
		switch g.T.N(3) {
		case 1:
			s = cat(s, g.kw("asc"))
		case 2:
			o.Direction, s = "desc", cat(s, g.kw("desc"))
		}
		out = append(out, o)
	}
	return out, s
}

func (g *G) limit(d int) (*sqlparser.Limit, Toks) {
	a := g.E(g.T.N(d+1), lOr)
	l := &sqlparser.Limit{Rowcount: a.e}
	s := cat(g.kw("limit"), a.s)
	if g.T.Bool() {
		b := g.E(0, lOr)
		l.Offset = b.e
		if g.T.Bool() {
			s = cat(g.kw("limit"), b.s, ",", a.s)
		} else {
			s = cat(s, g.kw("offset"), b.s)
		}
	}
	return l, s
}

func (g *G) comments() (sqlparser.Comments, Toks) {
	var c sqlparser.Comments
	var s Toks
	for g.T.Chance(10) && len(c) < 2 {
		x := engine.Pick(g.T, []string{"/* c */", "/* it's */", "/*vt+ A=1 */", "/**/", "/* a;b */", "/***/"})
		c, s = append(c, []byte(x)), append(s, x)
	}
	return c, s
}

// SelectStmt generates a query.
func (g *G) SelectStmt() (sqlparser.SelectStatement, Toks) { return g.selectStmt(g.Depth, false) }

func (g *G) selectStmt(d int, safeEnd bool) (sqlparser.SelectStatement, Toks) {
	if !safeEnd && g.T.Chance(15) {
		return g.union(d)
	}
	sel, s := g.base(d, safeEnd)
	if g.T.Chance(25) {
		o, os := g.orderBy(d - 1)
		sel.OrderBy, s = o, cat(s, os)
	}
	if g.T.Chance(25) {
		l, ls := g.limit(d - 1)
		sel.Limit, s = l, cat(s, ls)
	}
	if g.T.Chance(8) {
		if g.T.Bool() {
			sel.Lock, s = " for update", cat(s, g.kw("for update"))
		} else {
			sel.Lock, s = " lock in share mode", cat(s, g.kw("lock in share mode"))
		}
	}
	return sel, s
}

func (g *G) base(d int, safeEnd bool) (*sqlparser.Select, Toks) {
	sel := &sqlparser.Select{}
	s := g.kw("select")
	c, cs := g.comments()
	sel.Comments, s = c, cat(s, cs)
	if g.T.Chance(6) {
		x := engine.Pick(g.T, []string{"sql_cache ", "sql_no_cache "})
		sel.Cache, s = x, cat(s, g.kw(x))
	}
	if g.T.Chance(12) {
		sel.Distinct, s = "distinct ", cat(s, g.kw("distinct"))
	}
	if g.T.Chance(6) {
		sel.Hints, s = "straight_join ", cat(s, g.kw("straight_join"))
	}
	es, ss := g.selectExprs(d-1, false)
	sel.SelectExprs, s = es, cat(s, ss)
	if g.T.Chance(85) || safeEnd {
		var fs Toks
		sel.From, fs = g.tableExprs(d - 1)
		s = cat(s, g.kw("from"), fs)
	} else {
		sel.From = sqlparser.TableExprs{&sqlparser.AliasedTableExpr{Expr: sqlparser.TableName{Name: sqlparser.NewTableIdent("dual")}}}
	}
	if g.T.Chance(50) || safeEnd {
		e := g.E(d, lOr)
		sel.Where, s = sqlparser.NewWhere("where", e.e), cat(s, g.kw("where"), e.s)
	}
	if g.T.Chance(20) {
		s = cat(s, g.kw("group by"))
		for i := g.T.Range(1, 2); i > 0; i-- {
			e := g.E(d-1, lOr)
			if len(sel.GroupBy) > 0 {
				s = append(s, ",")
			}
			sel.GroupBy, s = append(sel.GroupBy, e.e), cat(s, e.s)
		}
	}
	if g.T.Chance(12) {
		e := g.E(d-1, lOr)
		sel.Having, s = sqlparser.NewWhere("having", e.e), cat(s, g.kw("having"), e.s)
	}
	return sel, s
}

func (g *G) union(d int) (sqlparser.SelectStatement, Toks) {
	u := &sqlparser.Union{}
	side := func(left bool) (sqlparser.SelectStatement, Toks) {
		if g.T.Chance(35) {
			q, s := g.selectStmt(d-1, false)
			return &sqlparser.ParenSelect{Select: q}, cat("(", s, ")")
		}
		if left && d > 0 && g.T.Chance(30) {
			return g.union(d - 1)
		}
		return g.base(d-1, false)
	}
	var ls, rs Toks
	u.Left, ls = side(true)
	u.Right, rs = side(false)
	u.Type = engine.Pick(g.T, []string{"union", "union all", "union distinct"})
	s := cat(ls, g.kw(u.Type), rs)
	if g.T.Chance(30) {
		o, os := g.orderBy(d - 1)
		u.OrderBy, s = o, cat(s, os)
	}
	if g.T.Chance(30) {
		l, lms := g.limit(d - 1)
		u.Limit, s = l, cat(s, lms)
	}
	if g.T.Chance(6) {
		u.Lock, s = " for update", cat(s, g.kw("for update"))
	}
	return u, s
}

func (g *G) cols(n int) (sqlparser.Columns, Toks) {
	var out sqlparser.Columns
	s := Toks{"("}
	for ; n > 0; n-- {
		if len(out) > 0 {
			s = append(s, ",")
		}
		c, cs := g.colIdent()
		out, s = append(out, c), cat(s, cs)
	}
	return out, cat(s, ")")
}

func (g *G) tableExprs(d int) (sqlparser.TableExprs, Toks) {
	var out sqlparser.TableExprs
	var s Toks
	n := 1
	if g.T.Chance(20) {
		n = 2
	}
	for ; n > 0; n-- {
		if len(out) > 0 {
			s = append(s, ",")
		}
		x, xs := g.tableExpr(d)
		out, s = append(out, x), cat(s, xs)
	}
	return out, s
}

func (g *G) tableFactor(d int) (sqlparser.TableExpr, Toks) {
	if d > 0 {
		switch g.T.N(10) {
		case 8:
			q, s := g.selectStmt(d-1, false)
			as, ns := g.tableIdent()
			if g.T.Bool() {
				ns = cat(g.kw("as"), ns)
			}
			return &sqlparser.AliasedTableExpr{Expr: &sqlparser.Subquery{Select: q}, As: as}, cat("(", s, ")", ns)
		case 9:
			x, s := g.tableExprs(d - 1)
			return &sqlparser.ParenTableExpr{Exprs: x}, cat("(", s, ")")
		}
	}
	n, s := g.tableName()
	x := &sqlparser.AliasedTableExpr{Expr: n}
	if g.T.Chance(6) {
		p, ps := g.cols(g.T.Range(1, 2))
		x.Partitions, s = sqlparser.Partitions(p), cat(s, g.kw("partition"), ps)
	}
	if g.T.Chance(30) {
		as, ns := g.tableIdent()
		if g.T.Bool() {
			s = cat(s, g.kw("as"))
		}
		x.As, s = as, cat(s, ns)
	}
	if g.T.Chance(8) {
		ty := engine.Pick(g.T, []string{"use ", "ignore ", "force "})
		c, cs := g.cols(g.T.Range(1, 2))
		x.Hints, s = &sqlparser.IndexHints{Type: ty, Indexes: c}, cat(s, g.kw(ty, "index"), cs)
	}
	return x, s
}

func (g *G) tableExpr(d int) (sqlparser.TableExpr, Toks) {
	x, s := g.tableFactor(d)
	for d > 0 && g.T.Chance(30) {
		d--
		y, ys := g.tableFactor(d)
		j := &sqlparser.JoinTableExpr{LeftExpr: x, RightExpr: y}
		on := func() Toks {
			if g.T.Chance(25) {
				c, cs := g.cols(g.T.Range(1, 2))
				j.Condition.Using = c
				return cat(g.kw("using"), cs)
			}
			e := g.E(d, lOr)
			j.Condition.On = e.e
			return cat(g.kw("on"), e.s)
		}
		switch g.T.N(6) {
		case 0, 1:
			j.Join = "join"
			s = cat(s, g.kw(engine.Pick(g.T, []string{"join", "inner join", "cross join"})), ys)
			if g.T.Chance(70) {
				s = cat(s, on())
			}
		case 2:
			j.Join = "straight_join"
			s = cat(s, g.kw("straight_join"), ys)
			if g.T.Bool() {
				e := g.E(d, lOr)
				j.Condition.On, s = e.e, cat(s, g.kw("on"), e.s)
			}
		case 3, 4:
			k := engine.Pick(g.T, []string{"left", "right"})
			j.Join = k + " join"
			if g.T.Bool() {
				k += " outer"
			}
			s = cat(s, g.kw(k, "join"), ys, on())
		case 5:
			k := engine.Pick(g.T, []string{"", "left", "right"})
			j.Join = strings.Join(strings.Fields("natural "+k+" join"), " ")
			if k != "" && g.T.Bool() {
				k += " outer"
			}
			s = cat(s, g.kw("natural", k, "join"), ys)
		}
		x = j
	}
	return x, s
}

func (g *G) updateExprs(d int) (sqlparser.UpdateExprs, Toks) {
	var out sqlparser.UpdateExprs
	var s Toks
	for i := g.T.Range(1, 3); i > 0; i-- {
		if len(out) > 0 {
			s = append(s, ",")
		}
		c, cs := g.colName()
		e := g.E(d, lOr)
		out, s = append(out, &sqlparser.UpdateExpr{Name: c, Expr: e.e}), cat(s, cs, "=", e.s)
	}
	return out, s
}

// Stmt generates a statement.
func (g *G) Stmt() (sqlparser.Statement, Toks) {
	d := g.Depth
	switch g.T.N(12) {
	case 0, 1, 2, 3:
		return g.selectStmt(d, false)
	case 4:
		return g.union(d)
	case 5, 6, 7:
		return g.insert(d)
	case 8:
		u := &sqlparser.Update{}
		c, cs := g.comments()
		tx, ts := g.tableExprs(d - 1)
		ux, us := g.updateExprs(d - 1)
		u.Comments, u.TableExprs, u.Exprs = c, tx, ux
		s := cat(g.kw("update"), cs, ts, g.kw("set"), us)
		g.tail(d, &u.Where, &u.OrderBy, &u.Limit, &s)
		return u, s
	case 9:
		x := &sqlparser.Delete{}
		c, cs := g.comments()
		x.Comments = c
		s := cat(g.kw("delete"), cs)
		if g.T.Chance(60) {
			n, ns := g.tableName()
			x.TableExprs = sqlparser.TableExprs{&sqlparser.AliasedTableExpr{Expr: n}}
			s = cat(s, g.kw("from"), ns)
			if g.T.Chance(15) {
				p, ps := g.cols(g.T.Range(1, 2))
				x.Partitions, s = sqlparser.Partitions(p), cat(s, g.kw("partition"), ps)
			}
			g.tail(d, &x.Where, &x.OrderBy, &x.Limit, &s)
			return x, s
		}
		var ns Toks
		for i := g.T.Range(1, 2); i > 0; i-- {
			if len(x.Targets) > 0 {
				ns = append(ns, ",")
			}
			n, nn := g.tableName()
			x.Targets, ns = append(x.Targets, n), cat(ns, nn)
		}
		tx, ts := g.tableExprs(d - 1)
		x.TableExprs = tx
		switch g.T.N(3) {
		case 0:
			s = cat(s, ns, g.kw("from"), ts)
		case 1:
			s = cat(s, ns, g.kw("using"), ts)
		case 2:
			s = cat(s, g.kw("from"), ns, g.kw("using"), ts)
		}
		if g.T.Chance(60) {
			e := g.E(d, lOr)
			x.Where, s = sqlparser.NewWhere("where", e.e), cat(s, g.kw("where"), e.s)
		}
		return x, s
	case 10:
		x := &sqlparser.Set{}
		c, cs := g.comments()
		x.Comments = c
		s := cat(g.kw("set"), cs)
		if g.T.Chance(30) {
			x.Scope = engine.Pick(g.T, []string{"session", "global"})
			s = cat(s, g.kw(x.Scope))
		}
		for i := g.T.Range(1, 2); i > 0; i-- {
			if len(x.Exprs) > 0 {
				s = append(s, ",")
			}
			switch g.T.N(6) {
			case 0:
				k := engine.Pick(g.T, []string{"names", "charset", "character set"})
				n := k
				if k == "character set" {
					n = "charset"
				}
				var e sqlparser.Expr = sqlparser.NewStrVal([]byte("utf8"))
				vs := Toks{engine.Pick(g.T, []string{"utf8", "'utf8'", "\"utf8\""})}
				if g.T.Chance(25) {
					e, vs = &sqlparser.Default{}, g.kw("default")
				} else {
					g.Lits = append(g.Lits, "utf8")
				}
				x.Exprs, s = append(x.Exprs, &sqlparser.SetExpr{Name: sqlparser.NewColIdent(n), Expr: e}), cat(s, g.kw(k), vs)
			case 1:
				v := engine.Pick(g.T, []string{"on", "off"})
				x.Exprs, s = append(x.Exprs, &sqlparser.SetExpr{Name: sqlparser.NewColIdent("autocommit"), Expr: sqlparser.NewStrVal([]byte(v))}), cat(s, "autocommit", "=", g.kw(v))
			default:
				n := engine.Pick(g.T, []string{"a", "@@session.wait", "@x", "sql_mode", "@@Autocommit"})
				e := g.E(d-1, lOr)
				x.Exprs, s = append(x.Exprs, &sqlparser.SetExpr{Name: sqlparser.NewColIdent(n), Expr: e.e}), cat(s, n, "=", e.s)
			}
		}
		return x, s
	}
	x := &sqlparser.Stream{}
	c, cs := g.comments()
	n, ns := g.tableName()
	x.Comments, x.Table, x.SelectExpr = c, n, &sqlparser.StarExpr{}
	return x, cat(g.kw("stream"), cs, "*", g.kw("from"), ns)
}

func (g *G) tail(d int, w **sqlparser.Where, o *sqlparser.OrderBy, l **sqlparser.Limit, s *Toks) {
	if g.T.Chance(60) {
		e := g.E(d, lOr)
		*w, *s = sqlparser.NewWhere("where", e.e), cat(*s, g.kw("where"), e.s)
	}
	if g.T.Chance(25) {
		x, xs := g.orderBy(d - 1)
		*o, *s = x, cat(*s, xs)
	}
	if g.T.Chance(25) {
		x, xs := g.limit(d - 1)
		*l, *s = x, cat(*s, xs)
	}
}

func (g *G) insert(d int) (sqlparser.Statement, Toks) {
	x := &sqlparser.Insert{Action: engine.Pick(g.T, []string{"insert", "replace"})}
	c, cs := g.comments()
	x.Comments = c
	s := cat(g.kw(x.Action), cs)
	if g.T.Chance(15) {
		x.Ignore, s = "ignore ", cat(s, g.kw("ignore"))
	}
	if g.T.Chance(80) {
		s = cat(s, g.kw("into"))
	}
	n, ns := g.tableName()
	x.Table, s = n, cat(s, ns)
	if g.T.Chance(10) {
		p, ps := g.cols(g.T.Range(1, 2))
		x.Partitions, s = sqlparser.Partitions(p), cat(s, g.kw("partition"), ps)
	}
	switch g.T.N(5) {
	case 0: // set
		ux := sqlparser.ValTuple{}
		s = cat(s, g.kw("set"))
		for i := g.T.Range(1, 3); i > 0; i-- {
			if len(ux) > 0 {
				s = append(s, ",")
			}
			c, cs := g.colIdent()
			e := g.E(d-1, lOr)
			x.Columns, ux, s = append(x.Columns, c), append(ux, e.e), cat(s, cs, "=", e.s)
		}
		x.Rows = sqlparser.Values{ux}
	case 1: // select
		if g.T.Bool() {
			c, cs := g.cols(g.T.Range(1, 3))
			x.Columns, s = c, cat(s, cs)
		}
		q, qs := g.selectStmt(d-1, true)
		x.Rows = q.(*sqlparser.Select)
		if g.T.Chance(20) {
			qs = cat("(", qs, ")")
		}
		s = cat(s, qs)
	default:
		k := g.T.Range(1, 3)
		if g.T.Chance(70) {
			c, cs := g.cols(k)
			x.Columns, s = c, cat(s, cs)
		}
		s = cat(s, g.kw("values"))
		var rows sqlparser.Values
		for i := g.T.Range(1, 2); i > 0; i-- {
			if len(rows) > 0 {
				s = append(s, ",")
			}
			row := sqlparser.ValTuple{}
			s = append(s, "(")
			for j := 0; j < k; j++ {
				if j > 0 {
					s = append(s, ",")
				}
				if g.T.Chance(10) {
					row, s = append(row, &sqlparser.Default{}), cat(s, g.kw("default"))
					continue
				}
				e := g.E(d-1, lOr)
				row, s = append(row, e.e), cat(s, e.s)
			}
			rows, s = append(rows, row), append(s, ")")
		}
		x.Rows = rows
	}
	if g.T.Chance(20) {
		u, us := g.updateExprs(d - 1)
		x.OnDup, s = sqlparser.OnDup(u), cat(s, g.kw("on duplicate key update"), us)
	}
	return x, s
}

// Tree describes a syntax tree. Distinctions without meaning are dropped: the
// direction of ORDER BY NULL and RAND().
func Tree(n interface{}) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(n), false)
	return sb.String()
}

// Skeleton is Tree without the literals: values and variables look alike, and
// so do lists of them.
func Skeleton(n interface{}) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(n), true)
	return sb.String()
}

var tComments = reflect.TypeOf(sqlparser.Comments{})

func literal(n interface{}) bool {
	v, ok := n.(*sqlparser.SQLVal)
	return ok && v != nil && (v.Type == sqlparser.StrVal || v.Type == sqlparser.IntVal || v.Type == sqlparser.FloatVal || v.Type == sqlparser.ValArg)
}

func dump(sb *strings.Builder, v reflect.Value, skel bool) {
	if skel && v.IsValid() && v.Kind() != reflect.Interface {
		x := v.Interface()
		if u, ok := x.(*sqlparser.UnaryExpr); ok && u != nil && u.Operator == "-" {
			dump(sb, reflect.ValueOf(u.Expr), skel)
			return
		}
		if literal(x) {
			sb.WriteByte('?')
			return
		}
		if l, ok := x.(sqlparser.ValTuple); ok {
			all := true
			for _, e := range l {
				if u, neg := e.(*sqlparser.UnaryExpr); neg && u.Operator == "-" {
					e = u.Expr
				}
				all = all && literal(e)
			}
			if all {
				sb.WriteString("(?)")
				return
			}
		}
		if _, ok := x.(sqlparser.ListArg); ok {
			sb.WriteString("(?)")
			return
		}
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Interface:
		dump(sb, v.Elem(), skel)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if o, ok := v.Interface().(*sqlparser.Order); ok {
			c := *o
			if _, null := o.Expr.(*sqlparser.NullVal); null {
				c.Direction = "asc"
			}
			if f, fn := o.Expr.(*sqlparser.FuncExpr); fn && f.Name.Lowered() == "rand" {
				c.Direction = "asc"
			}
			dump(sb, reflect.ValueOf(c), skel)
			return
		}
		if u, ok := v.Interface().(*sqlparser.UnaryExpr); ok && u.Operator == "-" {
			if l, ok := u.Expr.(*sqlparser.SQLVal); ok && (l.Type == sqlparser.FloatVal || l.Type == sqlparser.HexNum) && len(l.Val) > 0 && l.Val[0] != '-' {
				c := *l
				c.Val = append([]byte("-"), l.Val...)
				dump(sb, reflect.ValueOf(c), skel)
				return
			}
		}
		dump(sb, v.Elem(), skel)
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		switch x := v.Interface().(type) {
		case sqlparser.ColIdent:
			fmt.Fprintf(sb, "%q", x.String())
			return
		case sqlparser.TableIdent:
			fmt.Fprintf(sb, "%q", x.String())
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Name == "Metadata" {
				continue
			}
			if v.Field(i).IsZero() || v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0 {
				continue
			}
			sb.WriteString(f.Name + ":")
			dump(sb, v.Field(i), skel)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", v.Bytes())
			return
		}
		sb.WriteString(v.Type().Name() + "[")
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i), skel)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	default:
		fmt.Fprint(sb, v.Interface())
	}
}

var word = regexp.MustCompile("^@{0,2}[A-Za-z_][A-Za-z_0-9.]*$")

var fnWord = regexp.MustCompile("(?i)^(left|right|if|database|mod|replace|current_timestamp|utc_timestamp|utc_time|utc_date|localtime|localtimestamp|current_date|current_time)$")

// Writable: the tree holds no name in a place where names are written without
// quotes that needs them (variables, functions, collations, units), and only
// valid UTF-8 names.
func Writable(stmt sqlparser.Statement) bool {
	ok := true
	w := func(s string) {
		if s != "" && (!word.MatchString(s) || sqlparser.String(sqlparser.NewColIdent(s))[0] == '`') {
			ok = false
		}
	}
	sqlparser.Walk(func(n sqlparser.SQLNode) (bool, error) {
		switch n := n.(type) {
		case *sqlparser.SetExpr:
			w(n.Name.String())
			ok = ok && n.Name.String() != ""
		case *sqlparser.CollateExpr:
			w(n.Charset)
			ok = ok && n.Charset != ""
		case *sqlparser.ConvertUsingExpr:
			w(n.Type)
			ok = ok && n.Type != ""
		case *sqlparser.ConvertType:
			if n != nil {
				w(n.Charset)
			}
		case *sqlparser.FuncExpr:
			ok = ok && n.Name.String() != ""
			if !fnWord.MatchString(n.Name.String()) {
				w(n.Name.String())
			}
		case *sqlparser.ColName:
			ok = ok && n.Name.String() != "" // "a.&&" is accepted
		case *sqlparser.IntervalExpr:
			w(n.Unit)
		case *sqlparser.Default:
			w(n.ColName)
		case sqlparser.TableName:
			ok = ok && (n.Qualifier.IsEmpty() || !n.Name.IsEmpty())
		case sqlparser.ColIdent:
			ok = ok && utf8.ValidString(n.String())
		case sqlparser.TableIdent:
			ok = ok && utf8.ValidString(n.String())
		}
		return true, nil
	}, stmt)
	return ok
}
