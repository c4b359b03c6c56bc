package sim

import (
	"fmt"
	"sort"
	"strings"
)

// ---- types ----

type pgTyp struct {
	Type   string // as in information_schema.columns.data_type
	Args   []string
	Array  bool
	Serial bool
}

func (t pgTyp) full() string {
	s := t.Type
	if len(t.Args) > 0 {
		a := "(" + strings.Join(t.Args, ",") + ")"
		if i := strings.Index(s, " with"); i >= 0 {
			s = s[:i] + a + s[i:]
		} else {
			s += a
		}
	}
	if t.Array {
		s += "[]"
	}
	return s
}

var pgPlainTypes = map[string]string{
	"smallint": "smallint", "int2": "smallint", "integer": "integer", "int": "integer", "int4": "integer",
	"bigint": "bigint", "int8": "bigint", "real": "real", "float4": "real", "float8": "double precision",
	"text": "text", "date": "date", "boolean": "boolean", "bool": "boolean", "uuid": "uuid", "json": "json",
	"jsonb": "jsonb", "bytea": "bytea", "money": "money", "point": "point", "inet": "inet", "cidr": "cidr",
	"xml": "xml", "name": "name",
}

func (p *parser) typeArgs() []string {
	if !p.op("(") {
		return nil
	}
	var out []string
	for {
		out = append(out, p.number())
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return out
}

func (p *parser) pgType() pgTyp {
	t := p.next()
	if t.k != tWord {
		p.i--
		p.fail("syntax error near %s: expected a type", p.near())
	}
	w := t.lower()
	var r pgTyp
	switch w {
	case "smallserial", "serial2":
		r = pgTyp{Type: "smallint", Serial: true}
	case "serial", "serial4":
		r = pgTyp{Type: "integer", Serial: true}
	case "bigserial", "serial8":
		r = pgTyp{Type: "bigint", Serial: true}
	case "double":
		p.needKw("precision")
		r = pgTyp{Type: "double precision"}
	case "float":
		r = pgTyp{Type: "double precision"}
		p.typeArgs()
	case "numeric", "decimal", "dec":
		r = pgTyp{Type: "numeric", Args: p.typeArgs()}
		if len(r.Args) == 1 {
			r.Args = append(r.Args, "0")
		}
	case "varchar":
		r = pgTyp{Type: "character varying", Args: p.typeArgs()}
	case "character", "char":
		if p.kw("varying") {
			r = pgTyp{Type: "character varying", Args: p.typeArgs()}
		} else {
			r = pgTyp{Type: "character", Args: p.typeArgs()}
			if r.Args == nil {
				r.Args = []string{"1"}
			}
		}
	case "bpchar":
		r = pgTyp{Type: "character", Args: p.typeArgs()}
	case "bit":
		r = pgTyp{Type: "bit", Args: p.typeArgs()}
		if r.Args == nil {
			r.Args = []string{"1"}
		}
	case "timestamptz":
		r = pgTyp{Type: "timestamp with time zone", Args: p.typeArgs()}
	case "timetz":
		r = pgTyp{Type: "time with time zone", Args: p.typeArgs()}
	case "timestamp", "time":
		a := p.typeArgs()
		if p.kw("with", "time", "zone") {
			r = pgTyp{Type: w + " with time zone", Args: a}
		} else {
			p.kw("without", "time", "zone")
			r = pgTyp{Type: w + " without time zone", Args: a}
		}
	case "interval":
		r = pgTyp{Type: "interval", Args: p.typeArgs()}
	default:
		n, ok := pgPlainTypes[w]
		if !ok {
			p.fail("type \"%s\" does not exist", w)
		}
		r = pgTyp{Type: n}
		if p.isOp("(") {
			p.fail("type modifier is not allowed for type \"%s\"", n)
		}
	}
	for p.isOp("[") {
		p.next()
		if p.peek().k == tNum {
			p.next()
		}
		p.needOp("]")
		r.Array = true
	}
	// the lexer may read [] as an empty quoted name
	for p.peek().k == tQuoted && p.peek().s == "" {
		p.next()
		r.Array = true
	}
	if r.Serial && r.Array {
		p.fail("array of serial is not implemented")
	}
	return r
}

func pgIntType(t string) bool { return t == "smallint" || t == "integer" || t == "bigint" }
func pgNumType(t string) bool {
	return pgIntType(t) || t == "numeric" || t == "real" || t == "double precision"
}
func pgStrType(t string) bool {
	return t == "text" || t == "character varying" || t == "character"
}

// pgCast: an automatic (assignment) cast exists between the types of columns.
func pgCast(from, to *Col) bool {
	if from.Array != to.Array {
		return pgStrType(to.Type) && !to.Array
	}
	a, b := from.Type, to.Type
	if a == b || pgNumType(a) && pgNumType(b) || pgStrType(b) {
		return true
	}
	dt := func(t string) bool { return strings.HasPrefix(t, "timestamp") || t == "date" }
	if dt(a) && dt(b) {
		return true
	}
	if strings.HasPrefix(a, "timestamp") && strings.HasPrefix(b, "time ") || strings.HasPrefix(a, "time ") && strings.HasPrefix(b, "time ") {
		return true
	}
	if (a == "json" || a == "jsonb") && (b == "json" || b == "jsonb") {
		return true
	}
	return false
}

// ---- expressions ----

type scopeCol struct {
	alias string
	t     *Table
}

// resolve binds columns; it fails for unknown ones.
func (s *Server) pgResolve(p *parser, e *expr, scope []scopeCol) {
	for _, a := range e.args {
		s.pgResolve(p, a, scope)
	}
	switch e.op {
	case "col":
		n := 0
		for _, sc := range scope {
			if e.qual != "" && e.qual != sc.alias {
				continue
			}
			if c := sc.t.col(e.s); c != nil {
				n++
				e.qual = sc.alias
				e.typ = c.Type
				if c.Array {
					e.typ += "[]"
				}
			}
		}
		if n == 0 {
			p.fail("column \"%s\" does not exist", e.s)
		}
		if n > 1 {
			p.fail("column reference \"%s\" is ambiguous", e.s)
		}
	case "=", "<", ">", "<=", ">=", "<>":
		a, b := e.args[0], e.args[1]
		for i, x := range []*expr{a, b} {
			o := e.args[1-i]
			if x.op == "str" {
				switch {
				case pgStrType(o.typ):
					e.args[i] = &expr{op: "cast", s: "text", args: []*expr{x}, typ: "text"}
				case o.typ == "unknown":
				default:
					e.args[i] = &expr{op: "cast", s: o.typ, args: []*expr{x}, typ: o.typ}
				}
			}
		}
		for i, x := range e.args {
			if x.typ == "character varying" {
				e.args[i] = &expr{op: "cast", s: "text", args: []*expr{x}, typ: "text"}
			}
		}
		a, b = e.args[0], e.args[1]
		if pgNumType(a.typ) && pgNumType(b.typ) && a.typ != b.typ {
			for i, x := range e.args {
				o := e.args[1-i]
				if x.op == "num" && (o.typ == "numeric" || o.typ == "double precision") && x.typ == "integer" {
					e.args[i] = &expr{op: "cast", s: o.typ, args: []*expr{x}, typ: o.typ}
				}
				if x.op == "num" && o.typ == "real" {
					e.args[i] = &expr{op: "cast", s: "double precision", args: []*expr{x}, typ: o.typ}
				}
			}
		} else if a.typ != b.typ && !(pgStrType(a.typ) && pgStrType(b.typ)) && a.typ != "name" && b.typ != "name" && a.typ != "unknown" && b.typ != "unknown" && a.typ != "" && b.typ != "" && !(strings.HasPrefix(a.typ, "timestamp") && strings.HasPrefix(b.typ, "timestamp")) {
			p.fail("operator does not exist: %s %s %s", a.typ, e.op, b.typ)
		}
	case "and", "or", "not":
		for _, a := range e.args {
			if a.typ != "boolean" && a.typ != "unknown" && a.typ != "" {
				p.fail("argument of %s must be type boolean, not type %s", strings.ToUpper(e.op), a.typ)
			}
		}
	}
}

func pgName(n string) string {
	plain := n != "" && !(n[0] >= '0' && n[0] <= '9')
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			plain = false
		}
	}
	if plain && !pgKeywords[n] {
		return n
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

// words that are quoted when printed
var pgKeywords = func() map[string]bool {
	m := words("authorization between bigint binary bit boolean char character coalesce collation cross dec decimal exists extract float freeze full greatest grouping ilike inner inout int integer interval is isnull join left like national natural nchar none normalize notnull nullif numeric out outer overlaps overlay position precision real right row session_user setof similar smallint substring time timestamp treat trim values varchar verbose xmlattributes")
	for w := range reserved[Postgres] {
		m[w] = true
	}
	return m
}()

// pgPrint prints an expression as the server does: with all parentheses, or
// "pretty" ones.
func pgPrint(e *expr, pretty, qualify bool) string {
	sub := func(x *expr) string { return pgPrint(x, pretty, qualify) }
	par := func(s string) string {
		if pretty {
			return s
		}
		return "(" + s + ")"
	}
	switch e.op {
	case "col":
		if qualify {
			return pgName(e.qual) + "." + pgName(e.s)
		}
		return pgName(e.s)
	case "num":
		if strings.HasPrefix(e.s, "-") {
			return "'" + e.s + "'::" + e.typ
		}
		return e.s
	case "str":
		return "'" + strings.ReplaceAll(e.s, "'", "''") + "'"
	case "word":
		return e.s
	case "star":
		return "*"
	case "cast":
		x := sub(e.args[0])
		if e.args[0].op != "str" && !(pretty && (e.args[0].op == "col" || e.args[0].op == "num")) {
			x = "(" + x + ")"
		}
		return x + "::" + e.s
	case "call":
		var a []string
		for _, x := range e.args {
			a = append(a, sub(x))
		}
		return pgName(e.s) + "(" + strings.Join(a, ", ") + ")"
	case "not":
		return par("NOT " + sub(e.args[0]))
	case "and", "or":
		var a []string
		for _, x := range e.args {
			t := sub(x)
			if pretty && x.op == "or" {
				t = "(" + t + ")"
			}
			a = append(a, t)
		}
		return par(strings.Join(a, " "+strings.ToUpper(e.op)+" "))
	case "isnull":
		return par(sub(e.args[0]) + " IS NULL")
	case "isnotnull":
		return par(sub(e.args[0]) + " IS NOT NULL")
	default:
		l, r := sub(e.args[0]), sub(e.args[1])
		if pretty {
			arith := "+-*/%"
			if strings.Contains(arith, e.args[0].op) {
				l = "(" + l + ")"
			}
			if strings.Contains(arith, e.args[1].op) {
				r = "(" + r + ")"
			}
		}
		return par(l + " " + e.op + " " + r)
	}
}

// ---- defaults ----

// pgDefault reads the expression after DEFAULT.
func (s *Server) pgDefault(p *parser, c *Col) {
	start := p.i
	e := p.exprAdd()
	_ = start
	for e.op == "cast" && e.args[0].op == "cast" {
		e = e.args[0]
	}
	c.Default, c.DefaultRaw = nil, ""
	castTo := ""
	if e.op == "cast" {
		castTo = e.s
		e = e.args[0]
	}
	typ := c.Type
	if c.Array {
		typ += "[]"
	}
	bad := func() {
		p.fail("column \"%s\" is of type %s but default expression is of another type", c.Name, typ)
	}
	switch e.op {
	case "num":
		if !pgNumType(typ) && typ != "money" {
			bad()
		}
		c.Default = &Val{"num", e.s}
		c.DefaultRaw = e.s
		if strings.HasPrefix(e.s, "-") {
			c.DefaultRaw = "'" + e.s + "'::" + e.typ
		}
	case "str":
		if castTo != "" {
			base := strings.SplitN(castTo, "(", 2)[0]
			if base == "character" || base == "character varying" || base == "text" {
				if !pgStrType(typ) {
					bad()
				}
			} else if base != typ && !(pgNumType(base) && pgNumType(typ)) && !(strings.HasPrefix(base, "timestamp") && strings.HasPrefix(typ, "timestamp")) {
				bad()
			}
		}
		switch {
		case pgNumType(typ):
			if !isNumber(e.s) {
				p.fail("invalid input syntax for type %s: \"%s\"", typ, e.s)
			}
			c.Default = &Val{"num", e.s}
			c.DefaultRaw = e.s
			if strings.HasPrefix(e.s, "-") {
				t := typ
				if castTo != "" {
					t = castTo
				}
				c.DefaultRaw = "'" + e.s + "'::" + t
			}
		case typ == "boolean":
			switch strings.ToLower(e.s) {
			case "t", "true", "yes", "on", "1", "y":
				c.Default, c.DefaultRaw = &Val{"bool", "true"}, "true"
			case "f", "false", "no", "off", "0", "n":
				c.Default, c.DefaultRaw = &Val{"bool", "false"}, "false"
			default:
				p.fail("invalid input syntax for type boolean: \"%s\"", e.s)
			}
		default:
			t := typ
			if t == "character" {
				t = "bpchar"
			}
			if (typ == "uuid" || typ == "json" || typ == "jsonb" || typ == "date" || strings.HasPrefix(typ, "time")) && e.s == "" {
				p.fail("invalid input syntax for type %s: \"%s\"", typ, e.s)
			}
			c.Default = &Val{"str", e.s}
			c.DefaultRaw = "'" + strings.ReplaceAll(e.s, "'", "''") + "'::" + t
		}
	case "word":
		switch {
		case e.s == "true" || e.s == "false":
			if typ != "boolean" {
				bad()
			}
			c.Default, c.DefaultRaw = &Val{"bool", e.s}, e.s
		case e.s == "NULL":
			if len(c.Args) > 0 && pgStrType(typ) {
				t := typ
				if t == "character" {
					t = "bpchar"
				}
				c.DefaultRaw = "NULL::" + t
			}
		default:
			if e.s == "CURRENT_DATE" && typ != "date" && !strings.HasPrefix(typ, "timestamp") && !pgStrType(typ) ||
				e.s == "CURRENT_TIMESTAMP" && typ != "date" && !strings.HasPrefix(typ, "time") && !pgStrType(typ) ||
				e.s == "CURRENT_TIME" && !strings.HasPrefix(typ, "time ") && !pgStrType(typ) {
				bad()
			}
			c.Default, c.DefaultRaw = &Val{"func", strings.ToLower(e.s)}, e.s
		}
	case "call":
		if len(e.args) > 0 && e.s != "nextval" {
			p.fail("unsupported default in this model")
		}
		switch e.s {
		case "now":
			if typ != "date" && !strings.HasPrefix(typ, "time") && !pgStrType(typ) {
				bad()
			}
		case "gen_random_uuid", "uuid_generate_v4":
			if typ != "uuid" && !pgStrType(typ) {
				bad()
			}
		default:
			p.fail("function %s() does not exist", e.s)
		}
		c.Default, c.DefaultRaw = &Val{"func", e.s + "()"}, e.s+"()"
	default:
		p.fail("unsupported default in this model: %s", p.near())
	}
}

func isNumber(s string) bool {
	s = strings.TrimPrefix(s, "-")
	dot := false
	for i := 0; i < len(s); i++ {
		if s[i] == '.' && !dot {
			dot = true
		} else if !isDigit(s[i]) {
			return false
		}
	}
	return s != "" && s != "."
}

// ---- names ----

func (s *Server) pgSchema(p *parser, schema string) string {
	if schema == "" {
		return "public"
	}
	if schema != "public" && schema != "app" {
		p.fail("schema \"%s\" does not exist", schema)
	}
	return schema
}

// pgRelation: a relation (table, view, index, sequence) has the name.
func (s *Server) pgRelation(schema, name string) bool {
	if s.S.table(schema, name) != nil || s.S.view(schema, name) != nil {
		return true
	}
	for _, t := range s.S.Tables {
		if t.Schema != schema {
			continue
		}
		for _, ix := range t.Indexes {
			if ix.Name == name {
				return true
			}
		}
		for _, c := range t.Cols {
			if (c.Serial || c.Identity != nil) && t.Name+"_"+c.Name+"_seq" == name {
				return true
			}
		}
	}
	return false
}

func (s *Server) pgTable(p *parser) *Table {
	schema, n := p.qname()
	schema = s.pgSchema(p, schema)
	t := s.S.table(schema, n)
	if t == nil {
		p.fail("relation \"%s.%s\" does not exist", schema, n)
	}
	return t
}

func (t *Table) pgConstraint(name string) bool {
	for _, f := range t.FKs {
		if f.Name == name {
			return true
		}
	}
	for _, ix := range t.Indexes {
		if ix.Constraint && ix.Name == name {
			return true
		}
	}
	for _, c := range t.Cols {
		if c.Check != nil && c.Check.Name == name {
			return true
		}
	}
	return false
}

func (s *Server) pgFreeConstraint(t *Table, base string) string {
	n := base
	for i := 1; t.pgConstraint(n) || s.pgRelation(t.Schema, n); i++ {
		n = fmt.Sprintf("%s%d", base, i)
	}
	return n
}

// ---- statements ----

type pgPending struct {
	fks     []*FK
	pk      []string
	pkName  string
	uniques []*Index
}

// pgColDef reads a column definition into the table (not yet appended).
func (s *Server) pgColDef(p *parser, t *Table, pend *pgPending) *Col {
	c := &Col{Name: p.ident()}
	if t.col(c.Name) != nil {
		p.fail("column \"%s\" specified more than once", c.Name)
	}
	ty := p.pgType()
	c.Type, c.Args, c.Array, c.Serial = ty.Type, ty.Args, ty.Array, ty.Serial
	if c.Serial {
		c.NotNull = true
	}
	t.Cols = append(t.Cols, c)
	null := false
	hasDef := false
	var check *parserCheck
	for !p.eof() && !p.isOp(",") && !p.isOp(")") {
		name := ""
		if p.kw("constraint") {
			name = p.ident()
		}
		switch {
		case p.kw("not", "null"):
			c.NotNull = true
			if null {
				p.fail("conflicting NULL/NOT NULL declarations for column \"%s\"", c.Name)
			}
		case p.kw("null"):
			null = true
			if c.NotNull {
				p.fail("conflicting NULL/NOT NULL declarations for column \"%s\"", c.Name)
			}
		case p.kw("default"):
			if hasDef || c.Serial {
				p.fail("multiple default values specified for column \"%s\"", c.Name)
			}
			hasDef = true
			s.pgDefault(p, c)
		case p.kw("unique"):
			pend.uniques = append(pend.uniques, &Index{Name: name, Kind: "unique", Cols: []IdxCol{{Name: c.Name}}, Constraint: true, Method: "btree"})
		case p.kw("primary", "key"):
			if pend.pk != nil {
				p.fail("multiple primary keys for table \"%s\" are not allowed", t.Name)
			}
			pend.pk, pend.pkName = []string{c.Name}, name
		case p.isKw("check"):
			if check != nil {
				p.fail("several checks of a column: not in this model")
			}
			check = s.pgCheckDef(p, name)
		case p.kw("references"):
			f := &FK{Name: name, Cols: []string{c.Name}}
			s.pgRefs(p, f)
			pend.fks = append(pend.fks, f)
		case p.kw("generated"):
			b := "ALWAYS"
			if p.kw("by", "default") {
				b = "BY DEFAULT"
			} else {
				p.needKw("always")
			}
			p.needKw("as", "identity")
			c.Identity = &Identity{Behavior: b}
			s.pgSeqOpts(p, c.Identity)
			if c.Serial || !pgIntType(c.Type) || c.Array {
				p.fail("identity column type must be smallint, integer, or bigint")
			}
			if null {
				p.fail("conflicting NULL/NOT NULL declarations for column \"%s\"", c.Name)
			}
			c.NotNull = true
		case p.kw("collate"):
			p.ident()
		default:
			p.fail("syntax error near %s", p.near())
		}
	}
	if hasDef && c.Identity != nil {
		p.fail("both default and identity specified for column \"%s\"", c.Name)
	}
	if c.Serial && hasDef {
		p.fail("multiple default values specified for column \"%s\"", c.Name)
	}
	if check != nil {
		s.pgAddCheck(p, t, c, check)
	}
	return c
}

func (s *Server) pgSeqOpts(p *parser, id *Identity) {
	if !p.op("(") {
		return
	}
	for !p.isOp(")") {
		switch {
		case p.kw("start"):
			p.kw("with")
			id.Seed = p.number()
		case p.kw("increment"):
			p.kw("by")
			id.Inc = p.number()
		case p.kw("minvalue"), p.kw("maxvalue"), p.kw("cache"):
			p.number()
		case p.kw("no", "minvalue"), p.kw("no", "maxvalue"), p.kw("no", "cycle"), p.kw("cycle"):
		default:
			p.fail("syntax error near %s", p.near())
		}
	}
	p.needOp(")")
	// sequence parameters cannot be read back by the tool
	id.Seed, id.Inc = "", ""
}

type parserCheck struct {
	name      string
	e         *expr
	noInherit bool
}

func (s *Server) pgCheckDef(p *parser, name string) *parserCheck {
	p.needKw("check")
	p.needOp("(")
	e := p.expr()
	p.needOp(")")
	return &parserCheck{name, e, p.kw("no", "inherit")}
}

func (s *Server) pgAddCheck(p *parser, t *Table, c *Col, k *parserCheck) {
	s.pgResolve(p, k.e, []scopeCol{{t.Name, t}})
	if k.e.typ != "boolean" {
		p.fail("argument of CHECK must be type boolean")
	}
	cols := map[string]bool{}
	k.e.walk(func(e *expr) {
		if e.op == "col" {
			cols[e.s] = true
		}
	})
	if len(cols) != 1 {
		p.fail("check on %d columns: not in this model", len(cols))
	}
	for n := range cols {
		if c == nil {
			c = t.col(n)
		} else if c.Name != n {
			p.fail("check of another column: not in this model")
		}
	}
	if c.Check != nil {
		p.fail("several checks of a column: not in this model")
	}
	if k.name == "" {
		k.name = s.pgFreeConstraint(t, t.Name+"_"+c.Name+"_check")
	} else if t.pgConstraint(k.name) {
		p.fail("constraint \"%s\" for relation \"%s\" already exists", k.name, t.Name)
	}
	c.Check = &Check{Name: k.name, Expr: pgPrint(k.e, false, false), Raw: "CHECK (" + pgPrint(k.e, true, false) + ")", NoInherit: k.noInherit}
	if k.noInherit {
		c.Check.Raw += " NO INHERIT"
	}
}

func (s *Server) pgRefs(p *parser, f *FK) {
	schema, n := p.qname()
	f.RefSchema, f.Ref = s.pgSchema(p, schema), n
	if p.isOp("(") {
		f.RefCols = p.identList()
	}
	for {
		switch {
		case p.kw("on", "delete"):
			f.OnDelete = s.pgAction(p)
		case p.kw("on", "update"):
			f.OnUpdate = s.pgAction(p)
		case p.kw("not", "deferrable"), p.kw("match", "simple"):
		default:
			if f.OnDelete == "" {
				f.OnDelete = "NO ACTION"
			}
			if f.OnUpdate == "" {
				f.OnUpdate = "NO ACTION"
			}
			return
		}
	}
}

func (s *Server) pgAction(p *parser) string {
	for _, a := range []string{"NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"} {
		if p.kw(strings.Fields(strings.ToLower(a))...) {
			return a
		}
	}
	p.fail("syntax error near %s: expected an action", p.near())
	return ""
}

func (s *Server) pgAddPK(p *parser, t *Table, name string, cols []string) {
	if t.primary() != nil {
		p.fail("multiple primary keys for table \"%s\" are not allowed", t.Name)
	}
	ix := &Index{Name: name, Kind: "primary", Constraint: true, Method: "btree"}
	seen := map[string]bool{}
	for _, n := range cols {
		c := t.col(n)
		if c == nil {
			p.fail("column \"%s\" named in key does not exist", n)
		}
		if seen[n] {
			p.fail("column \"%s\" appears twice in primary key constraint", n)
		}
		seen[n] = true
		s.pgKeyable(p, c)
		c.NotNull = true
		ix.Cols = append(ix.Cols, IdxCol{Name: n})
	}
	if ix.Name == "" {
		ix.Name = s.pgFreeConstraint(t, t.Name+"_pkey")
	}
	s.pgAddIndex(p, t, ix)
}

func (s *Server) pgKeyable(p *parser, c *Col) {
	if c.Type == "json" || c.Type == "point" || c.Type == "xml" {
		p.fail("data type %s has no default operator class for access method \"btree\"", c.Type)
	}
}

func (s *Server) pgAddIndex(p *parser, t *Table, ix *Index) {
	if s.pgRelation(t.Schema, ix.Name) {
		p.fail("relation \"%s\" already exists", ix.Name)
	}
	if ix.Constraint && t.pgConstraint(ix.Name) {
		p.fail("constraint \"%s\" for relation \"%s\" already exists", ix.Name, t.Name)
	}
	ix.Mark = s.mark()
	t.Indexes = append(t.Indexes, ix)
	s.effect("create", "index "+t.full()+"."+keyName(ix), "")
}

func (s *Server) pgAddFK(p *parser, t *Table, f *FK) {
	if f.Name == "" {
		f.Name = s.pgFreeConstraint(t, t.Name+"_"+strings.Join(f.Cols, "_")+"_fkey")
	} else if t.pgConstraint(f.Name) {
		p.fail("constraint \"%s\" for relation \"%s\" already exists", f.Name, t.Name)
	}
	for _, n := range f.Cols {
		if t.col(n) == nil {
			p.fail("column \"%s\" referenced in foreign key constraint does not exist", n)
		}
	}
	r := s.S.table(f.RefSchema, f.Ref)
	if r == nil {
		if s.LaterRefs && f.RefCols != nil {
			t.FKs = append(t.FKs, f)
			f.Mark = s.mark()
			s.effect("create", "fk "+t.full()+"."+f.Name, "")
			return
		}
		p.fail("relation \"%s.%s\" does not exist", f.RefSchema, f.Ref)
	}
	if f.RefCols == nil {
		pk := r.primary()
		if pk == nil {
			p.fail("there is no primary key for referenced table \"%s\"", r.Name)
		}
		f.RefCols = pk.names()
	}
	if len(f.RefCols) != len(f.Cols) {
		p.fail("number of referencing and referenced columns for foreign key disagree")
	}
	ok := false
	for _, ix := range r.Indexes {
		if (ix.Kind == "unique" || ix.Kind == "primary") && ix.Where == "" && len(ix.Cols) == len(f.RefCols) {
			same := true
			for _, c := range f.RefCols {
				same = same && ix.has(c)
			}
			ok = ok || same
		}
	}
	if !ok {
		p.fail("there is no unique constraint matching given keys for referenced table \"%s\"", r.Name)
	}
	for i := range f.Cols {
		s.pgFKTypes(p, f, t.col(f.Cols[i]), r.col(f.RefCols[i]))
	}
	f.Mark = s.mark()
	t.FKs = append(t.FKs, f)
	s.effect("create", "fk "+t.full()+"."+f.Name, "")
}

func (s *Server) pgFKTypes(p *parser, f *FK, a, b *Col) {
	if b == nil {
		p.fail("column referenced in foreign key constraint does not exist")
	}
	if a.Array != b.Array || !(a.Type == b.Type || pgNumType(a.Type) && pgNumType(b.Type) || pgStrType(a.Type) && pgStrType(b.Type) || strings.HasPrefix(a.Type, "timestamp") && strings.HasPrefix(b.Type, "timestamp")) {
		p.fail("foreign key constraint \"%s\" cannot be implemented", f.Name)
	}
}

func (s *Server) pgFinish(p *parser, t *Table, pend *pgPending) {
	if pend.pk != nil {
		s.pgAddPK(p, t, pend.pkName, pend.pk)
	}
	for _, ix := range pend.uniques {
		s.pgUnique(p, t, ix)
	}
	for _, f := range pend.fks {
		s.pgAddFK(p, t, f)
	}
}

func (s *Server) pgUnique(p *parser, t *Table, ix *Index) {
	for _, ic := range ix.Cols {
		c := t.col(ic.Name)
		if c == nil {
			p.fail("column \"%s\" named in key does not exist", ic.Name)
		}
		s.pgKeyable(p, c)
	}
	if ix.Name == "" {
		ix.Name = s.pgFreeConstraint(t, t.Name+"_"+strings.Join(ix.names(), "_")+"_key")
	}
	s.pgAddIndex(p, t, ix)
}

func (s *Server) pgStmt(p *parser) {
	switch {
	case p.kw("create"):
		switch {
		case p.kw("table"):
			s.pgCreateTable(p)
		case p.isKw("unique", "index"), p.isKw("index"):
			s.pgCreateIndex(p)
		case p.isKw("or", "replace", "view"), p.isKw("view"):
			repl := p.kw("or", "replace")
			p.needKw("view")
			s.pgCreateView(p, repl)
		case p.kw("policy"):
			s.pgCreatePolicy(p)
		default:
			p.fail("syntax error near %s", p.near())
		}
	case p.kw("alter", "table"):
		p.kw("only")
		t := s.pgTable(p)
		for {
			s.pgAlter(p, t)
			if !p.op(",") {
				break
			}
		}
	case p.kw("drop"):
		switch {
		case p.kw("table"):
			t := s.pgTable(p)
			for _, v := range s.S.Views {
				if containsStr(v.Tables, t.full()) {
					p.fail("cannot drop table %s because other objects depend on it: view %s", t.full(), v.Name)
				}
			}
			for _, o := range s.S.Tables {
				for _, f := range o.FKs {
					if o != t && f.Ref == t.Name && f.RefSchema == t.Schema {
						p.fail("cannot drop table %s because other objects depend on it: constraint %s on table %s", t.full(), f.Name, o.full())
					}
				}
			}
			s.dropTable(t)
		case p.kw("view"):
			schema, n := p.qname()
			v := s.S.view(s.pgSchema(p, schema), n)
			if v == nil {
				p.fail("view \"%s\" does not exist", n)
			}
			for _, o := range s.S.Views {
				if containsStr(o.Tables, v.Schema+"."+v.Name) {
					p.fail("cannot drop view %s because other objects depend on it: view %s", v.Name, o.Name)
				}
			}
			s.dropView(v)
		case p.kw("index"):
			schema, n := p.qname()
			schema = s.pgSchema(p, schema)
			for _, t := range s.S.Tables {
				if t.Schema != schema {
					continue
				}
				for _, ix := range t.Indexes {
					if ix.Name != n {
						continue
					}
					if ix.Constraint {
						p.fail("cannot drop index %s because constraint %s on table %s requires it", n, n, t.Name)
					}
					s.pgKeyUsed(p, t, ix)
					removeIndex(t, ix)
					s.effect("drop", "index "+t.full()+"."+keyName(ix), "")
					return
				}
			}
			p.fail("index \"%s\" does not exist", n)
		case p.kw("policy"):
			n := p.ident()
			p.needKw("on")
			t := s.pgTable(p)
			o := t.policy(n)
			if o == nil {
				p.fail("policy \"%s\" for table \"%s\" does not exist", n, t.Name)
			}
			s.pgRemovePolicy(t, o)
		default:
			p.fail("syntax error near %s", p.near())
		}
	default:
		p.fail("syntax error near %s", p.near())
	}
}

func (s *Server) pgRemovePolicy(t *Table, o *Policy) {
	var out []*Policy
	for _, x := range t.Policies {
		if x != o {
			out = append(out, x)
		}
	}
	t.Policies = out
	s.effect("drop", "policy "+t.full()+"."+o.Name, "")
}

// pgKeyUsed: a key some foreign key needs cannot be dropped.
func (s *Server) pgKeyUsed(p *parser, t *Table, ix *Index) {
	if ix.Kind != "primary" && ix.Kind != "unique" || ix.Where != "" {
		return
	}
	for _, o := range s.S.Tables {
		for _, f := range o.FKs {
			if f.Ref != t.Name || f.RefSchema != t.Schema || len(f.RefCols) != len(ix.Cols) {
				continue
			}
			same := true
			for _, c := range f.RefCols {
				same = same && ix.has(c)
			}
			if !same {
				continue
			}
			p.fail("cannot drop %s because other objects depend on it: constraint %s on table %s", ix.Name, f.Name, o.full())
		}
	}
}

func (s *Server) pgCreateTable(p *parser) {
	ine := p.kw("if", "not", "exists")
	schema, n := p.qname()
	schema = s.pgSchema(p, schema)
	if s.pgRelation(schema, n) {
		if ine {
			p.i = len(p.toks)
			return
		}
		p.fail("relation \"%s\" already exists", n)
	}
	t := &Table{Schema: schema, Name: n, Mark: s.mark()}
	s.S.Tables = append(s.S.Tables, t)
	s.effect("create", "table "+t.full(), "")
	p.needOp("(")
	var pend pgPending
	var checks []*parserCheck
	for !p.isOp(")") {
		name := ""
		switch {
		case p.kw("constraint"):
			name = p.ident()
			fallthrough
		case p.isKw("primary", "key"), p.isKw("unique"), p.isKw("check"), p.isKw("foreign", "key"):
			switch {
			case p.kw("primary", "key"):
				if pend.pk != nil {
					p.fail("multiple primary keys for table \"%s\" are not allowed", t.Name)
				}
				pend.pk, pend.pkName = p.identList(), name
			case p.kw("unique"):
				ix := &Index{Name: name, Kind: "unique", Constraint: true, Method: "btree"}
				for _, c := range p.identList() {
					ix.Cols = append(ix.Cols, IdxCol{Name: c})
				}
				pend.uniques = append(pend.uniques, ix)
			case p.isKw("check"):
				checks = append(checks, s.pgCheckDef(p, name))
			case p.kw("foreign", "key"):
				f := &FK{Name: name, Cols: p.identList()}
				p.needKw("references")
				s.pgRefs(p, f)
				pend.fks = append(pend.fks, f)
			default:
				p.fail("syntax error near %s", p.near())
			}
		default:
			s.pgColDef(p, t, &pend)
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	for _, c := range t.Cols {
		t.Next++
		c.Num = t.Next
		s.effect("create", "column "+t.full()+"."+c.Name, "")
	}
	for _, k := range checks {
		s.pgAddCheck(p, t, nil, k)
	}
	s.pgFinish(p, t, &pend)
}

func (s *Server) pgCreateIndex(p *parser) {
	ix := &Index{Kind: "index", Method: "btree"}
	if p.kw("unique") {
		ix.Kind = "unique"
	}
	p.needKw("index")
	p.kw("concurrently")
	if !p.isKw("on") {
		ix.Name = p.ident()
	}
	p.needKw("on")
	p.kw("only")
	t := s.pgTable(p)
	if p.kw("using") {
		ix.Method = strings.ToLower(p.ident())
	}
	p.needOp("(")
	for {
		ic := IdxCol{Name: p.ident()}
		if t.col(ic.Name) == nil {
			p.fail("column \"%s\" does not exist", ic.Name)
		}
		if p.kw("desc") {
			ic.Desc = true
		} else {
			p.kw("asc")
		}
		if p.kw("nulls") {
			if !p.kw("first") {
				p.needKw("last")
			}
		}
		c := t.col(ic.Name)
		switch ix.Method {
		case "btree":
			s.pgKeyable(p, c)
		case "hash":
			if ic.Desc || ix.Kind == "unique" {
				p.fail("access method \"hash\" does not support this")
			}
			if c.Type == "json" {
				p.fail("data type json has no default operator class for access method \"hash\"")
			}
		case "gin":
			if c.Type != "jsonb" && !c.Array || ic.Desc || ix.Kind == "unique" {
				p.fail("data type %s has no default operator class for access method \"gin\"", c.Type)
			}
		case "brin":
			if ic.Desc || ix.Kind == "unique" || c.Type == "json" || c.Type == "jsonb" || c.Type == "boolean" || c.Array {
				p.fail("access method \"brin\" does not support this")
			}
		default:
			p.fail("access method \"%s\" does not exist", ix.Method)
		}
		ix.Cols = append(ix.Cols, ic)
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	if ix.Method == "hash" && len(ix.Cols) > 1 {
		p.fail("access method \"hash\" does not support multicolumn indexes")
	}
	if p.kw("where") {
		e := p.expr()
		s.pgResolve(p, e, []scopeCol{{t.Name, t}})
		if e.typ != "boolean" {
			p.fail("argument of WHERE must be type boolean")
		}
		ix.Where = pgPrint(e, false, false)
		ix.WhereRaw = ix.Where
		e.walk(func(x *expr) {
			if x.op == "col" && !containsStr(ix.Included, x.s) {
				ix.WhereCols = append(ix.WhereCols, x.s)
			}
		})
	}
	if ix.Name == "" {
		ix.Name = s.pgFreeConstraint(t, t.Name+"_"+strings.Join(ix.names(), "_")+"_idx")
	}
	s.pgAddIndex(p, t, ix)
}

func pgIndexDef(t *Table, ix *Index) string {
	var cols []string
	for _, c := range ix.Cols {
		x := pgName(c.Name)
		if c.Desc {
			x += " DESC"
		}
		cols = append(cols, x)
	}
	u := ""
	if ix.Kind != "index" {
		u = "UNIQUE "
	}
	d := fmt.Sprintf("CREATE %sINDEX %s ON %s.%s USING %s (%s)", u, pgName(ix.Name), pgName(t.Schema), pgName(t.Name), ix.Method, strings.Join(cols, ", "))
	if ix.Where != "" {
		w := ix.WhereRaw
		d += " WHERE " + w
	}
	return d
}

var pgRoles = words("public postgres app_user readonly admin_role")

func (s *Server) pgCreatePolicy(p *parser) {
	o := &Policy{Name: p.ident(), Permissive: "PERMISSIVE", Cmd: "ALL"}
	p.needKw("on")
	t := s.pgTable(p)
	if t.policy(o.Name) != nil {
		p.fail("policy \"%s\" for table \"%s\" already exists", o.Name, t.Name)
	}
	if p.kw("as") {
		if p.kw("restrictive") {
			o.Permissive = "RESTRICTIVE"
		} else {
			p.needKw("permissive")
		}
	}
	if p.kw("for") {
		w := p.next()
		switch c := strings.ToUpper(w.s); c {
		case "ALL", "SELECT", "INSERT", "UPDATE", "DELETE":
			o.Cmd = c
		default:
			p.fail("unrecognized row security option \"%s\"", w.s)
		}
	}
	if p.kw("to") {
		for {
			r := p.ident()
			if !pgRoles[r] {
				p.fail("role \"%s\" does not exist", r)
			}
			if !containsStr(o.Roles, r) {
				o.Roles = append(o.Roles, r)
			}
			if !p.op(",") {
				break
			}
		}
		if containsStr(o.Roles, "public") {
			o.Roles = []string{"public"}
		}
	} else {
		o.Roles = []string{"public"}
	}
	get := func() (*expr, string) {
		p.needOp("(")
		e := p.expr()
		p.needOp(")")
		s.pgResolve(p, e, []scopeCol{{t.Name, t}})
		if e.typ != "boolean" {
			p.fail("argument of POLICY must be type boolean")
		}
		e.walk(func(x *expr) {
			if x.op == "col" {
				o.Cols = append(o.Cols, x.s)
			}
		})
		return e, pgPrint(e, false, false)
	}
	if p.kw("using") {
		if o.Cmd == "INSERT" {
			p.fail("only WITH CHECK expression allowed for INSERT")
		}
		_, o.Using = get()
		o.UsingRaw = o.Using
	}
	if p.kw("with", "check") {
		if o.Cmd == "SELECT" || o.Cmd == "DELETE" {
			p.fail("WITH CHECK cannot be applied to SELECT or DELETE")
		}
		_, o.Check = get()
		o.CheckRaw = o.Check
	}
	o.Mark = s.mark()
	t.Policies = append(t.Policies, o)
	s.effect("create", "policy "+t.full()+"."+o.Name, "")
}

// pgColUsed: something else than keys depends on the column.
func (s *Server) pgColUsed(p *parser, t *Table, c *Col, what string) {
	for _, v := range s.S.Views {
		if v.Uses[t.full()][c.Name] {
			p.fail("cannot %s %s.%s because view %s depends on it", what, t.Name, c.Name, v.Name)
		}
	}
	for _, o := range t.Policies {
		if containsStr(o.Cols, c.Name) {
			p.fail("cannot %s %s.%s because policy %s depends on it", what, t.Name, c.Name, o.Name)
		}
	}
}

func (s *Server) pgAlter(p *parser, t *Table) {
	col := func() *Col {
		n := p.ident()
		c := t.col(n)
		if c == nil {
			p.fail("column \"%s\" of relation \"%s\" does not exist", n, t.Name)
		}
		return c
	}
	key := func(c *Col) string { return "column " + t.full() + "." + c.Name }
	switch {
	case p.isKw("add", "constraint"), p.isKw("add", "primary", "key"), p.isKw("add", "unique", "("), p.isKw("add", "foreign", "key"), p.isKw("add", "check"):
		p.needKw("add")
		name := ""
		if p.kw("constraint") {
			name = p.ident()
		}
		switch {
		case p.kw("primary", "key"):
			s.pgAddPK(p, t, name, p.identList())
		case p.kw("unique"):
			ix := &Index{Name: name, Kind: "unique", Constraint: true, Method: "btree"}
			for _, c := range p.identList() {
				ix.Cols = append(ix.Cols, IdxCol{Name: c})
			}
			s.pgUnique(p, t, ix)
		case p.isKw("check"):
			k := s.pgCheckDef(p, name)
			s.pgAddCheck(p, t, nil, k)
			for _, c := range t.Cols {
				if c.Check != nil && c.Check.Name == k.name {
					s.effect("alter", key(c), "")
				}
			}
		case p.kw("foreign", "key"):
			f := &FK{Name: name, Cols: p.identList()}
			p.needKw("references")
			s.pgRefs(p, f)
			s.pgAddFK(p, t, f)
		default:
			p.fail("syntax error near %s", p.near())
		}
	case p.kw("add"):
		p.kw("column")
		var pend pgPending
		c := s.pgColDef(p, t, &pend)
		t.Next++
		c.Num = t.Next
		s.effect("create", key(c), "")
		s.pgFinish(p, t, &pend)
	case p.kw("drop", "constraint"):
		ifex := p.kw("if", "exists")
		n := p.ident()
		for _, f := range t.FKs {
			if f.Name == n {
				removeFK(t, f)
				s.effect("drop", "fk "+t.full()+"."+n, "")
				return
			}
		}
		for _, ix := range t.Indexes {
			if ix.Constraint && ix.Name == n {
				s.pgKeyUsed(p, t, ix)
				removeIndex(t, ix)
				s.effect("drop", "index "+t.full()+"."+keyName(ix), "")
				return
			}
		}
		for _, c := range t.Cols {
			if c.Check != nil && c.Check.Name == n {
				c.Check = nil
				s.effect("alter", key(c), "")
				return
			}
		}
		if !ifex {
			p.fail("constraint \"%s\" of relation \"%s\" does not exist", n, t.Name)
		}
	case p.kw("drop"):
		p.kw("column")
		if p.kw("if", "exists") && t.col(p.peek().s) == nil {
			p.next()
			return
		}
		c := col()
		s.pgColUsed(p, t, c, "drop column")
		via := key(c)
		for _, ix := range append([]*Index(nil), t.Indexes...) {
			if ix.has(c.Name) || containsStr(ix.WhereCols, c.Name) {
				s.pgKeyUsed(p, t, ix)
				removeIndex(t, ix)
				s.effect("drop", "index "+t.full()+"."+keyName(ix), via)
			}
		}
		for _, f := range append([]*FK(nil), t.FKs...) {
			if containsStr(f.Cols, c.Name) {
				removeFK(t, f)
				s.effect("drop", "fk "+t.full()+"."+f.Name, via)
			}
		}
		removeCol(t, c.Name)
		t.Gone = append(t.Gone, c.Num)
		s.effect("drop", via, "")
	case p.kw("alter"):
		p.kw("column")
		c := col()
		switch {
		case p.kw("type"), p.kw("set", "data", "type"):
			s.pgColUsed(p, t, c, "alter type of")
			ty := p.pgType()
			if ty.Serial {
				p.fail("type \"serial\" does not exist")
			}
			n := *c
			n.Type, n.Args, n.Array = ty.Type, ty.Args, ty.Array
			if p.kw("using") {
				p.expr()
			} else if !pgCast(c, &n) {
				p.fail("column \"%s\" cannot be cast automatically to type %s", c.Name, n.Type)
			}
			if c.Identity != nil && !pgIntType(n.Type) {
				p.fail("identity column type must be smallint, integer, or bigint")
			}
			if c.Default != nil && c.Default.Kind != "func" {
				// the default is converted
				switch {
				case pgNumType(n.Type) && c.Default.Kind == "num", n.Type == c.Type:
				case pgStrType(n.Type) && c.Default.Kind == "str":
				default:
					p.fail("default for column \"%s\" cannot be cast automatically to type %s (or is written in another way)", c.Name, n.Type)
				}
				if c.Default.Kind == "str" && pgStrType(n.Type) && n.Type != c.Type {
					// 'x'::character varying becomes ('x'::character varying)::text
					x := n.Type
					if x == "character" {
						x = "bpchar"
					}
					n.DefaultRaw = "'" + strings.ReplaceAll(c.Default.S, "'", "''") + "'::" + x
				}
			}
			if c.Check != nil && n.Type != c.Type {
				if !(pgIntType(n.Type) && pgIntType(c.Type)) {
					p.fail("a check on a column whose type changes: not in this model")
				}
			}
			for _, ix := range t.Indexes {
				if ix.has(c.Name) && n.Type != c.Type {
					switch {
					case ix.Method == "btree":
						s.pgKeyable(p, &n)
					case ix.Method == "hash" && n.Type == "json":
						p.fail("data type json has no default operator class for access method \"hash\"")
					case ix.Method == "gin" && n.Type != "jsonb" && !n.Array:
						p.fail("data type %s has no default operator class for access method \"gin\"", n.Type)
					}
				}
				if containsStr(ix.WhereCols, c.Name) && !(pgIntType(n.Type) && pgIntType(c.Type)) {
					p.fail("a partial index on a column whose type changes: not in this model")
				}
			}
			for _, o := range s.S.Tables {
				for _, f := range o.FKs {
					for i := range f.Cols {
						if o == t && f.Cols[i] == c.Name {
							if r := s.S.table(f.RefSchema, f.Ref); r != nil {
								s.pgFKTypes(p, f, &n, r.col(f.RefCols[i]))
							}
						}
						if f.Ref == t.Name && f.RefSchema == t.Schema && f.RefCols[i] == c.Name {
							s.pgFKTypes(p, f, o.col(f.Cols[i]), &n)
						}
					}
				}
			}
			*c = n
		case p.kw("set", "not", "null"):
			c.NotNull = true
		case p.kw("drop", "not", "null"):
			if pk := t.primary(); pk != nil && pk.has(c.Name) {
				p.fail("column \"%s\" is in a primary key", c.Name)
			}
			if c.Identity != nil {
				p.fail("column \"%s\" of relation \"%s\" is an identity column", c.Name, t.Name)
			}
			c.NotNull = false
		case p.kw("set", "default"):
			if c.Identity != nil {
				p.fail("column \"%s\" of relation \"%s\" is an identity column", c.Name, t.Name)
			}
			s.pgDefault(p, c)
			c.Serial = false
		case p.kw("drop", "default"):
			if c.Identity != nil {
				p.fail("column \"%s\" of relation \"%s\" is an identity column", c.Name, t.Name)
			}
			c.Default, c.DefaultRaw, c.Serial = nil, "", false
		case p.kw("add", "generated"):
			b := "ALWAYS"
			if p.kw("by", "default") {
				b = "BY DEFAULT"
			} else {
				p.needKw("always")
			}
			p.needKw("as", "identity")
			if c.Identity != nil {
				p.fail("column \"%s\" of relation \"%s\" is already an identity column", c.Name, t.Name)
			}
			if !c.NotNull {
				p.fail("column \"%s\" of relation \"%s\" must be declared NOT NULL before identity can be added", c.Name, t.Name)
			}
			if c.Default != nil || c.Serial || c.DefaultRaw != "" {
				p.fail("column \"%s\" of relation \"%s\" already has a default value", c.Name, t.Name)
			}
			if !pgIntType(c.Type) || c.Array {
				p.fail("identity column type must be smallint, integer, or bigint")
			}
			c.Identity = &Identity{Behavior: b}
			s.pgSeqOpts(p, c.Identity)
		case p.kw("set", "generated"):
			b := "ALWAYS"
			if p.kw("by", "default") {
				b = "BY DEFAULT"
			} else {
				p.needKw("always")
			}
			if c.Identity == nil {
				p.fail("column \"%s\" of relation \"%s\" is not an identity column", c.Name, t.Name)
			}
			c.Identity.Behavior = b
		case p.kw("drop", "identity"):
			ifex := p.kw("if", "exists")
			if c.Identity == nil && !ifex {
				p.fail("column \"%s\" of relation \"%s\" is not an identity column", c.Name, t.Name)
			}
			c.Identity = nil
		default:
			p.fail("syntax error near %s", p.near())
		}
		s.effect("alter", key(c), "")
	default:
		p.fail("syntax error near %s", p.near())
	}
}

// ---- views ----

// pgCreateView accepts SELECT items FROM tables [WHERE] [GROUP BY] [ORDER BY] [LIMIT].
func (s *Server) pgCreateView(p *parser, repl bool) {
	schema, n := p.qname()
	schema = s.pgSchema(p, schema)
	old := s.S.view(schema, n)
	if old == nil && s.pgRelation(schema, n) {
		if repl {
			p.fail("\"%s\" is not a view", n)
		}
		p.fail("relation \"%s\" already exists", n)
	}
	if old != nil && !repl {
		p.fail("relation \"%s\" already exists", n)
	}
	p.needKw("as")
	v := &View{Schema: schema, Name: n, Text: p.src, Uses: map[string]map[string]bool{}}
	wrapped := 0
	for p.op("(") {
		wrapped++
	}
	var types []string
	v.Raw, types = s.pgSelect(p, v)
	for ; wrapped > 0; wrapped-- {
		p.needOp(")")
	}
	v.Def = strings.Join(strings.Fields(v.Raw), " ")
	v.Types = types
	if old != nil {
		for i, c := range old.Cols {
			if i >= len(v.Cols) {
				p.fail("cannot drop columns from view")
			}
			if v.Cols[i] != c {
				p.fail("cannot change name of view column \"%s\" to \"%s\"", c, v.Cols[i])
			}
			if old.Types[i] != v.Types[i] {
				p.fail("cannot change data type of view column \"%s\" from %s to %s", c, old.Types[i], v.Types[i])
			}
		}
		v.Mark = old.Mark
		*old = *v
		s.effect("alter", "view "+schema+"."+n, "")
		return
	}
	v.Mark = s.mark()
	s.S.Views = append(s.S.Views, v)
	s.effect("create", "view "+schema+"."+n, "")
}

func (s *Server) pgSelect(p *parser, v *View) (string, []string) {
	p.needKw("select")
	distinct := p.kw("distinct")
	type item struct {
		e  *expr
		as string
	}
	var items []item
	for {
		it := item{e: p.expr()}
		if p.kw("as") {
			it.as = p.ident()
		} else if p.peek().k == tQuoted || p.peek().k == tWord && !reserved[Postgres][p.peek().lower()] {
			it.as = p.ident()
		}
		items = append(items, it)
		if !p.op(",") {
			break
		}
	}
	p.needKw("from")
	var scope []scopeCol
	table := func() string {
		sc, n := p.qname()
		sc = s.pgSchema(p, sc)
		t := s.S.table(sc, n)
		if t == nil {
			p.fail("relation \"%s.%s\" does not exist", sc, n)
		}
		al := n
		if p.kw("as") {
			al = p.ident()
		} else if p.peek().k == tQuoted || p.peek().k == tWord && !reserved[Postgres][p.peek().lower()] && !p.isKw("join") && !p.isKw("inner") && !p.isKw("left") && !p.isKw("natural") && !p.isKw("cross") && !p.isKw("right") && !p.isKw("full") {
			al = p.ident()
		}
		for _, x := range scope {
			if x.alias == al {
				p.fail("table name \"%s\" specified more than once", al)
			}
		}
		scope = append(scope, scopeCol{al, t})
		v.Tables = append(v.Tables, t.full())
		if v.Uses[t.full()] == nil {
			v.Uses[t.full()] = map[string]bool{}
		}
		out := pgName(n)
		if sc != "public" {
			out = pgName(sc) + "." + out
		}
		if al != n {
			out += " " + pgName(al)
		}
		return out
	}
	use := func(e *expr) {
		e.walk(func(x *expr) {
			if x.op == "col" {
				for _, sc := range scope {
					if sc.alias == x.qual {
						v.Uses[sc.t.full()][x.s] = true
					}
				}
			}
		})
	}
	par := 0
	for p.op("(") {
		par++
	}
	from := table()
	for {
		left := p.kw("left", "join") || p.kw("left", "outer", "join")
		if !left && !p.kw("join") && !p.kw("inner", "join") {
			break
		}
		r := table()
		p.needKw("on")
		e := p.expr()
		s.pgResolve(p, e, scope)
		use(e)
		k := "JOIN"
		if left {
			k = "LEFT JOIN"
		}
		from = "(" + from + "\n     " + k + " " + r + " ON (" + pgPrint(e, false, true) + "))"
		if par > 0 && p.op(")") {
			par--
		}
	}
	for ; par > 0; par-- {
		p.needOp(")")
	}
	qualify := len(scope) > 1 || s.Flavor != "16"
	var sel, types []string
	add := func(e *expr, as string) {
		name := as
		if name == "" {
			switch e.op {
			case "col", "call":
				name = e.s
			default:
				name = "?column?"
			}
		}
		if containsStr(v.Cols, name) {
			p.fail("column \"%s\" specified more than once", name)
		}
		v.Cols = append(v.Cols, name)
		types = append(types, e.typ)
		t := pgPrint(e, false, qualify)
		switch e.op {
		case "num":
			types[len(types)-1] = "integer"
		case "call":
			types[len(types)-1] = e.s
			if strings.HasPrefix(e.s, "count") {
				types[len(types)-1] = "bigint"
			} else if len(e.args) > 0 {
				types[len(types)-1] += " " + e.args[0].typ
			}
		}
		if !(e.op == "col" && name == e.s) && !(e.op == "call" && as == "") {
			t += " AS " + pgName(name)
		} else if e.op == "call" {
			t += " AS " + pgName(name)
		}
		sel = append(sel, t)
	}
	for _, it := range items {
		if it.e.op == "star" {
			for _, sc := range scope {
				if it.e.qual == "" || it.e.qual == sc.alias {
					for _, c := range sc.t.Cols {
						e := &expr{op: "col", s: c.Name, qual: sc.alias, typ: c.Type}
						use(e)
						add(e, "")
					}
				}
			}
			continue
		}
		s.pgResolve(p, it.e, scope)
		use(it.e)
		add(it.e, it.as)
	}
	out := " SELECT "
	if distinct {
		out += "DISTINCT "
	}
	out += strings.Join(sel, ",\n    ") + "\n   FROM " + from
	if p.kw("where") {
		e := p.expr()
		s.pgResolve(p, e, scope)
		if e.typ != "boolean" {
			p.fail("argument of WHERE must be type boolean")
		}
		use(e)
		out += "\n  WHERE " + pgPrint(e, false, qualify)
	}
	list := func() []string {
		var out []string
		for {
			e := p.expr()
			s.pgResolve(p, e, scope)
			use(e)
			x := pgPrint(e, false, qualify)
			if p.kw("desc") {
				x += " DESC"
			} else {
				p.kw("asc")
			}
			out = append(out, x)
			if !p.op(",") {
				return out
			}
		}
	}
	if p.kw("group", "by") {
		out += "\n  GROUP BY " + strings.Join(list(), ", ")
	}
	if p.kw("order", "by") {
		out += "\n  ORDER BY " + strings.Join(list(), ", ")
	}
	if p.kw("limit") {
		out += "\n LIMIT " + p.number()
	}
	return out + ";", types
}

var _ = sort.Strings
