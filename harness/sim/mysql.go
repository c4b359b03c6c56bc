package sim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The MySQL server model (5.7 and 8.0 flavours of SHOW CREATE TABLE).

var mysqlTypeAlias = map[string]string{
	"integer": "int", "bool": "tinyint", "boolean": "tinyint", "numeric": "decimal", "dec": "decimal", "fixed": "decimal",
	"character": "char", "int4": "int", "int8": "bigint", "real": "double",
}
var mysqlWidth = map[string][2]string{
	"tinyint": {"4", "3"}, "smallint": {"6", "5"}, "mediumint": {"9", "8"}, "int": {"11", "10"}, "bigint": {"20", "20"},
}
var mysqlTypes = words("tinyint smallint mediumint int bigint decimal float double bit date time datetime timestamp year char varchar binary varbinary tinytext text mediumtext longtext tinyblob blob mediumblob longblob enum set json")
var mysqlStringTypes = words("char varchar tinytext text mediumtext longtext enum set")
var mysqlIntTypes = words("tinyint smallint mediumint int bigint")
var mysqlNoDefault = words("tinytext text mediumtext longtext tinyblob blob mediumblob longblob json")

var mysqlCollations = map[string]string{ // collation -> charset
	"utf8mb4_general_ci": "utf8mb4", "utf8mb4_bin": "utf8mb4", "utf8mb4_unicode_ci": "utf8mb4", "utf8mb4_0900_ai_ci": "utf8mb4",
	"utf8_general_ci": "utf8", "utf8_bin": "utf8", "utf8_unicode_ci": "utf8",
	"latin1_swedish_ci": "latin1", "latin1_bin": "latin1", "latin1_general_ci": "latin1",
	"ascii_general_ci": "ascii", "ascii_bin": "ascii",
}

func (s *Server) mysqlDefaultCollation(cs string) string {
	switch cs {
	case "utf8mb4":
		if s.Flavor == "8.0" {
			return "utf8mb4_0900_ai_ci"
		}
		return "utf8mb4_general_ci"
	case "latin1":
		return "latin1_swedish_ci"
	}
	return cs + "_general_ci"
}

type mysqlColDef struct {
	col      *Col
	explNull bool
	unique   bool
	primary  bool
	cs, coll string
}

func (s *Server) mysqlColDef(p *parser) *mysqlColDef {
	d := &mysqlColDef{col: &Col{}}
	c := d.col
	c.Name = p.ident()
	t := p.next()
	if t.k != tWord {
		p.i--
		p.fail("syntax error near %s: expected a type", p.near())
	}
	typ := t.lower()
	isBool := typ == "bool" || typ == "boolean"
	if typ == "double" {
		p.kw("precision")
	}
	if typ == "character" || typ == "char" {
		if p.kw("varying") {
			typ = "varchar"
		}
	}
	if a, ok := mysqlTypeAlias[typ]; ok {
		typ = a
	}
	if !mysqlTypes[typ] {
		p.i--
		p.fail("syntax error near %s: unknown type %q", p.near(), typ)
	}
	c.Type = typ
	if p.isOp("(") {
		if isBool {
			p.fail("syntax error near %s: boolean takes no length", p.near())
		}
		p.next()
		if typ == "enum" || typ == "set" {
			c.Enum = []string{}
			for {
				v := p.next()
				if v.k != tString {
					p.i--
					p.fail("syntax error near %s: expected a string", p.near())
				}
				if containsStr(c.Enum, v.s) {
					p.fail("Column '%s' has duplicated value '%s' in %s", c.Name, v.s, typ)
				}
				c.Enum = append(c.Enum, v.s)
				if !p.op(",") {
					break
				}
			}
		} else {
			for {
				v := p.next()
				if v.k != tNum {
					p.i--
					p.fail("syntax error near %s: expected a number", p.near())
				}
				c.Args = append(c.Args, v.s)
				if !p.op(",") {
					break
				}
			}
			switch typ {
			case "decimal", "float", "double":
				if len(c.Args) > 2 {
					p.fail("too many type arguments")
				}
			case "date", "json":
				p.fail("syntax error: %s takes no length", typ)
			default:
				if len(c.Args) > 1 {
					p.fail("syntax error: too many type arguments")
				}
			}
		}
		p.needOp(")")
	}
	if isBool {
		c.Args = []string{"1"}
	}
	for {
		switch {
		case p.kw("unsigned"):
			if !mysqlIntTypes[typ] && typ != "decimal" && typ != "float" && typ != "double" {
				p.fail("syntax error: UNSIGNED on %s", typ)
			}
			c.Unsigned = true
			continue
		case p.kw("signed"):
			continue
		case p.kw("zerofill"):
			c.Zerofill, c.Unsigned = true, true
			continue
		}
		break
	}
	if typ == "enum" && c.Enum == nil {
		p.fail("syntax error: ENUM without values")
	}
	nullSeen := false
	for !p.eof() && !p.isOp(",") && !p.isOp(")") && !p.isKw("first") && !p.isKw("after") {
		switch {
		case p.kw("character", "set") || p.kw("charset"):
			d.cs = strings.ToLower(p.nameOrString())
		case p.kw("collate"):
			d.coll = strings.ToLower(p.nameOrString())
		case p.kw("not", "null"):
			c.NotNull = true
			nullSeen = true
		case p.kw("null"):
			d.explNull = true
		case p.kw("default"):
			c.Default = s.mysqlDefault(p)
		case p.kw("auto_increment"):
			c.AutoInc = true
		case p.kw("on", "update"):
			c.OnUpdate = mysqlNow(p)
		case p.kw("comment"):
			t := p.next()
			if t.k != tString {
				p.i--
				p.fail("syntax error near %s: expected a string", p.near())
			}
			c.Comment = t.s
		case p.kw("unique"):
			if !p.kw("key") {
				p.kw("index")
			}
			d.unique = true
		case p.kw("primary"):
			p.kw("key")
			d.primary = true
		case p.kw("key"):
			d.primary = true
		case p.kw("check"):
			p.parenTokens()
		default:
			p.fail("syntax error near %s", p.near())
		}
	}
	if nullSeen && d.explNull {
		p.fail("conflicting NULL and NOT NULL")
	}
	return d
}

func (p *parser) nameOrString() string {
	t := p.next()
	switch t.k {
	case tWord, tQuoted, tString:
		return t.s
	}
	p.i--
	p.fail("syntax error near %s: expected a name", p.near())
	return ""
}

func mysqlNow(p *parser) string {
	if p.kw("current_timestamp") || p.kw("now") || p.kw("localtimestamp") {
		arg := ""
		if p.op("(") {
			if t := p.peek(); t.k == tNum {
				arg = "(" + p.next().s + ")"
			}
			p.needOp(")")
		}
		return "CURRENT_TIMESTAMP" + arg
	}
	p.fail("syntax error near %s: expected CURRENT_TIMESTAMP", p.near())
	return ""
}

func (s *Server) mysqlDefault(p *parser) *Val {
	t := p.peek()
	switch {
	case t.k == tString:
		p.next()
		return &Val{"str", t.s}
	case t.k == tBits:
		p.next()
		return &Val{"bit", t.s}
	case t.k == tNum:
		p.next()
		return &Val{"num", t.s}
	case t.k == tHex:
		p.next()
		return &Val{"hex", strings.ToLower(t.s)}
	case t.k == tOp && (t.s == "-" || t.s == "+"):
		p.next()
		n := p.next()
		if n.k != tNum {
			p.fail("syntax error near %s", p.near())
		}
		if t.s == "-" {
			return &Val{"num", "-" + n.s}
		}
		return &Val{"num", n.s}
	case p.isKw("null"):
		p.next()
		return &Val{"null", ""}
	case p.isKw("true"):
		p.next()
		return &Val{"num", "1"}
	case p.isKw("false"):
		p.next()
		return &Val{"num", "0"}
	}
	return &Val{"func", mysqlNow(p)}
}

// finish resolves a column definition against its table.
func (s *Server) mysqlFinish(p *parser, t *Table, d *mysqlColDef) {
	c := d.col
	switch c.Type {
	case "tinyint", "smallint", "mediumint", "int", "bigint":
		if s.Flavor == "8.0" {
			if !(c.Type == "tinyint" && len(c.Args) == 1 && c.Args[0] == "1") && !c.Zerofill {
				c.Args = nil
			}
		}
		if len(c.Args) == 0 && (s.Flavor != "8.0" || c.Zerofill) {
			w := mysqlWidth[c.Type]
			if c.Unsigned {
				c.Args = []string{w[1]}
			} else {
				c.Args = []string{w[0]}
			}
		}
	case "decimal":
		if len(c.Args) == 0 {
			c.Args = []string{"10", "0"}
		} else if len(c.Args) == 1 {
			c.Args = append(c.Args, "0")
		}
		a, _ := strconv.Atoi(c.Args[0])
		b, _ := strconv.Atoi(c.Args[1])
		if b > a || a > 65 {
			p.fail("For float(M,D), double(M,D) or decimal(M,D), M must be >= D (column '%s')", c.Name)
		}
	case "char", "binary", "bit":
		if len(c.Args) == 0 {
			c.Args = []string{"1"}
		}
	case "varchar", "varbinary":
		if len(c.Args) == 0 {
			p.fail("syntax error: %s needs a length", c.Type)
		}
	case "year":
		c.Args = nil
		if s.Flavor != "8.0" {
			c.Args = []string{"4"}
		}
	case "text", "blob":
		c.Args = nil
	case "float":
		if len(c.Args) == 1 {
			n, _ := strconv.Atoi(c.Args[0])
			c.Args = nil
			if n > 24 {
				c.Type = "double"
			}
		}
	case "datetime", "timestamp", "time":
		if len(c.Args) == 1 && c.Args[0] == "0" {
			c.Args = nil
		}
		if len(c.Args) == 1 {
			if n, _ := strconv.Atoi(c.Args[0]); n > 6 {
				p.fail("Too-big precision %s specified for '%s'. Maximum is 6.", c.Args[0], c.Name)
			}
		}
	}
	if len(c.Args) > 0 && (c.Type == "char" || c.Type == "binary") {
		if n, _ := strconv.Atoi(c.Args[0]); n > 255 {
			p.fail("Column length too big for column '%s' (max = 255)", c.Name)
		}
	}
	if mysqlStringTypes[c.Type] {
		cs, coll := d.cs, d.coll
		if cs != "" && coll == "binary" {
			coll = cs + "_bin"
		}
		switch {
		case coll != "" && coll != "binary":
			k, ok := mysqlCollations[coll]
			if !ok {
				p.fail("Unknown collation: '%s'", coll)
			}
			if cs != "" && cs != k {
				p.fail("COLLATION '%s' is not valid for CHARACTER SET '%s'", coll, cs)
			}
			cs = k
		case cs != "":
			coll = s.mysqlDefaultCollation(cs)
		default:
			cs, coll = t.Charset, t.Collate
		}
		known := false
		for _, k := range mysqlCollations {
			known = known || k == cs
		}
		if !known {
			p.fail("Unknown character set: '%s'", cs)
		}
		c.Charset, c.Collate = cs, coll
	} else if d.cs != "" {
		p.fail("syntax error: CHARACTER SET on %s", c.Type)
	}
	if c.AutoInc {
		if !mysqlIntTypes[c.Type] && c.Type != "float" && c.Type != "double" {
			p.fail("Incorrect column specifier for column '%s'", c.Name)
		}
		if c.Default != nil {
			p.fail("Invalid default value for '%s'", c.Name)
		}
		if !d.explNull {
			c.NotNull = true
		}
	}
	if c.OnUpdate != "" && c.Type != "timestamp" && c.Type != "datetime" {
		p.fail("Invalid ON UPDATE clause for '%s' column", c.Name)
	}
	if d.primary {
		if d.explNull {
			p.fail("All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
		}
		c.NotNull = true
	}
	if c.Default != nil {
		s.mysqlCheckDefault(p, c)
	}
}

func (s *Server) mysqlCheckDefault(p *parser, c *Col) {
	bad := func() { p.fail("Invalid default value for '%s'", c.Name) }
	v := c.Default
	if v.Kind == "null" {
		if c.NotNull {
			bad()
		}
		c.Default = nil
		return
	}
	if mysqlNoDefault[c.Type] {
		p.fail("BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value", c.Name)
	}
	if v.Kind == "func" {
		if c.Type != "timestamp" && c.Type != "datetime" {
			bad()
		}
		want := "CURRENT_TIMESTAMP"
		if len(c.Args) == 1 {
			want += "(" + c.Args[0] + ")"
		}
		if v.S != want {
			bad()
		}
		return
	}
	switch {
	case mysqlIntTypes[c.Type]:
		if v.Kind == "bit" {
			n, err := strconv.ParseInt(v.S, 2, 64)
			if err != nil {
				bad()
			}
			c.Default = &Val{"str", fmt.Sprint(n)}
			return
		}
		f, err := strconv.ParseFloat(strings.TrimSpace(v.S), 64)
		if err != nil || c.Unsigned && f < 0 {
			bad()
		}
		if f == float64(int64(f)) && !strings.ContainsAny(v.S, ".eE") {
			n, err := strconv.ParseInt(strings.TrimPrefix(strings.TrimSpace(v.S), "+"), 10, 64)
			if err != nil {
				c.Default = &Val{"str", strings.TrimSpace(v.S)}
				return
			}
			c.Default = &Val{"str", fmt.Sprint(n)}
		} else {
			c.Default = &Val{"str", strconv.FormatFloat(f, 'f', 0, 64)}
		}
	case c.Type == "decimal":
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil || c.Unsigned && f < 0 {
			bad()
		}
		sc, _ := strconv.Atoi(c.Args[1])
		c.Default = &Val{"str", strconv.FormatFloat(f, 'f', sc, 64)}
	case c.Type == "float" || c.Type == "double":
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil || c.Unsigned && f < 0 {
			bad()
		}
		sc := -1
		if len(c.Args) == 2 {
			sc, _ = strconv.Atoi(c.Args[1])
		}
		c.Default = &Val{"str", strconv.FormatFloat(f, 'f', sc, 64)}
	case c.Type == "bit":
		if v.Kind == "num" || v.Kind == "str" && v.S == "" {
			n, err := strconv.ParseInt(v.S, 10, 64)
			if err != nil {
				bad()
			}
			c.Default = &Val{"bit", strconv.FormatInt(n, 2)}
		} else if v.Kind == "str" {
			bad()
		} else {
			c.Default = &Val{"bit", strings.TrimLeft(v.S, "0")}
			if c.Default.S == "" {
				c.Default.S = "0"
			}
		}
		n, _ := strconv.Atoi(c.Args[0])
		if len(c.Default.S) > n {
			bad()
		}
	case c.Type == "enum":
		if !containsStr(c.Enum, v.S) {
			bad()
		}
		c.Default = &Val{"str", v.S}
	case c.Type == "date":
		if len(v.S) != 10 || v.Kind == "num" {
			bad()
		}
		c.Default = &Val{"str", v.S}
	case c.Type == "datetime" || c.Type == "timestamp":
		if len(v.S) < 10 || v.Kind == "num" {
			bad()
		}
		if len(v.S) == 10 {
			v.S += " 00:00:00"
		}
		c.Default = &Val{"str", v.S}
	case c.Type == "char" || c.Type == "varchar":
		n, _ := strconv.Atoi(c.Args[0])
		if len([]rune(v.S)) > n {
			bad()
		}
		c.Default = &Val{"str", v.S}
	default:
		c.Default = &Val{"str", v.S}
	}
}

func (s *Server) mysqlIdxCols(p *parser) []IdxCol {
	p.needOp("(")
	var out []IdxCol
	for {
		c := IdxCol{Name: p.ident()}
		if p.op("(") {
			c.Len = p.number()
			p.needOp(")")
		}
		if p.kw("desc") {
			c.Desc = true
		} else {
			p.kw("asc")
		}
		out = append(out, c)
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return out
}

func (s *Server) mysqlIdxOptions(p *parser, ix *Index) {
	for {
		switch {
		case p.kw("using"):
			m := strings.ToUpper(p.ident())
			if m != "BTREE" && m != "HASH" {
				p.fail("syntax error: index method %s", m)
			}
			ix.Method = m
		case p.kw("comment"):
			t := p.next()
			if t.k != tString {
				p.i--
				p.fail("syntax error near %s", p.near())
			}
			ix.Comment = t.s
		case p.kw("with", "parser"):
			ix.Parser = strings.ToLower(p.ident())
			if ix.Kind != "fulltext" {
				p.fail("syntax error: WITH PARSER on a key that is not FULLTEXT")
			}
			if ix.Parser != "ngram" {
				p.fail("Function '%s' is not defined", ix.Parser)
			}
		case p.kw("key_block_size"):
			p.op("=")
			p.number()
		default:
			return
		}
	}
}

func (s *Server) mysqlAddIndex(p *parser, t *Table, ix *Index) {
	if ix.Kind == "primary" {
		ix.Name = "PRIMARY"
		if t.primary() != nil {
			p.fail("Multiple primary key defined")
		}
	} else {
		if ix.Name == "" {
			base := ix.Cols[0].Name
			ix.Name = base
			for n := 2; t.index(ix.Name) != nil; n++ {
				ix.Name = fmt.Sprintf("%s_%d", base, n)
			}
		}
		if strings.EqualFold(ix.Name, "PRIMARY") {
			p.fail("Incorrect index name 'PRIMARY'")
		}
		if t.index(ix.Name) != nil {
			p.fail("Duplicate key name '%s'", ix.Name)
		}
	}
	seen := map[string]bool{}
	for i := range ix.Cols {
		c := t.colFold(ix.Cols[i].Name)
		if c == nil {
			p.fail("Key column '%s' doesn't exist in table", ix.Cols[i].Name)
		}
		ix.Cols[i].Name = c.Name
		if seen[strings.ToLower(c.Name)] {
			p.fail("Duplicate column name '%s'", c.Name)
		}
		seen[strings.ToLower(c.Name)] = true
		blob := strings.HasSuffix(c.Type, "text") || strings.HasSuffix(c.Type, "blob")
		if ix.Kind == "fulltext" {
			if !(strings.HasSuffix(c.Type, "text") || c.Type == "varchar" || c.Type == "char") {
				p.fail("Column '%s' cannot be part of FULLTEXT index", c.Name)
			}
			ix.Cols[i].Len = ""
			ix.Cols[i].Desc = false
			continue
		}
		if c.Type == "json" {
			p.fail("JSON column '%s' cannot be used in key specification.", c.Name)
		}
		if blob && ix.Cols[i].Len == "" {
			p.fail("BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
		}
		if ix.Cols[i].Len != "" && !blob {
			n, _ := strconv.Atoi(ix.Cols[i].Len)
			m := 0
			if len(c.Args) > 0 {
				m, _ = strconv.Atoi(c.Args[0])
			}
			if c.Type != "char" && c.Type != "varchar" && c.Type != "binary" && c.Type != "varbinary" || n > m {
				p.fail("Incorrect prefix key; the used key part isn't a string, the used length is longer than the key part, or the storage engine doesn't support unique prefix keys")
			}
			if n == m {
				ix.Cols[i].Len = ""
			}
		}
		if s.Flavor != "8.0" {
			ix.Cols[i].Desc = false // parsed but ignored
		}
		if ix.Kind == "primary" {
			c.NotNull = true
			if c.Default != nil && c.Default.Kind == "null" {
				c.Default = nil
			}
		}
	}
	ix.Mark = s.mark()
	t.Indexes = append(t.Indexes, ix)
	s.effect("create", "index "+t.full()+"."+keyName(ix), "")
	// an index made for a foreign key disappears when an explicit one serves it
	if !ix.Implicit && ix.Kind != "fulltext" {
		for _, old := range append([]*Index(nil), t.Indexes...) {
			if old.Implicit && old != ix && supportsFK(&Table{Indexes: []*Index{ix}}, old.names(), nil) {
				removeIndex(t, old)
				s.effect("drop", "index "+t.full()+"."+keyName(old), "server")
			}
		}
	}
}

func keyName(ix *Index) string {
	if ix.Kind == "primary" {
		return "(primary)"
	}
	return ix.Name
}

func (s *Server) mysqlFKDef(p *parser, name string) *FK {
	f := &FK{Name: name}
	idx := ""
	if !p.isOp("(") {
		idx = p.ident()
	}
	_ = idx
	f.Cols = p.identList()
	p.needKw("references")
	_, f.Ref = p.qname()
	f.RefCols = p.identList()
	for {
		switch {
		case p.kw("on", "delete"):
			f.OnDelete = s.mysqlAction(p)
			continue
		case p.kw("on", "update"):
			f.OnUpdate = s.mysqlAction(p)
			continue
		}
		break
	}
	if name == "" {
		f.Name = "?" + idx
	}
	return f
}

func (s *Server) mysqlAction(p *parser) string {
	switch {
	case p.kw("cascade"):
		return "CASCADE"
	case p.kw("set", "null"):
		return "SET NULL"
	case p.kw("restrict"):
		if s.Flavor == "8.0" {
			return "RESTRICT"
		}
		return ""
	case p.kw("no", "action"):
		if s.Flavor == "8.0" {
			return ""
		}
		return "NO ACTION"
	}
	p.fail("syntax error near %s: expected a referential action", p.near())
	return ""
}

func sameFKType(a, b *Col) bool {
	if a.Type != b.Type || a.Unsigned != b.Unsigned {
		return false
	}
	if a.Charset != b.Charset || a.Collate != b.Collate {
		return false
	}
	return true
}

func supportsFK(t *Table, cols []string, except *Index) bool {
	for _, ix := range t.Indexes {
		if ix != except && ix.Kind != "fulltext" && hasPrefix(ix.names(), cols) {
			ok := true
			for i := range cols {
				if ix.Cols[i].Len != "" {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (s *Server) mysqlAddFK(p *parser, t *Table, f *FK) {
	if strings.HasPrefix(f.Name, "?") {
		base := f.Name[1:]
		n := 1
		for {
			f.Name = fmt.Sprintf("%s_ibfk_%d", t.Name, n)
			if s.fkByName(f.Name) == nil {
				break
			}
			n++
		}
		_ = base
	}
	if s.fkByName(f.Name) != nil {
		p.fail("Can't write; duplicate key in table '%s'", t.Name)
	}
	for i, c := range f.Cols {
		k := t.colFold(c)
		if k == nil {
			p.fail("Key column '%s' doesn't exist in table", c)
		}
		f.Cols[i] = k.Name
		if (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") && k.NotNull {
			p.fail("Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL", c, f.Name)
		}
	}
	ref := s.S.table("", f.Ref)
	if ref == nil && !s.LaterRefs {
		p.fail("Cannot add foreign key constraint: table '%s' not found", f.Ref)
	}
	if len(f.Cols) != len(f.RefCols) {
		p.fail("Incorrect foreign key definition for '%s': Key reference and table reference don't match", f.Name)
	}
	for i, c := range f.RefCols {
		if ref == nil {
			break
		}
		k := ref.colFold(c)
		if k == nil {
			p.fail("Failed to add the foreign key constraint. Missing column '%s'", c)
		}
		f.RefCols[i] = k.Name
		if !sameFKType(k, t.colFold(f.Cols[i])) {
			p.fail("Referencing column '%s' and referenced column '%s' in foreign key constraint '%s' are incompatible.", f.Cols[i], c, f.Name)
		}
	}
	if ref != nil && !supportsFK(ref, f.RefCols, nil) {
		p.fail("Failed to add the foreign key constraint. Missing index for constraint '%s' in the referenced table '%s'", f.Name, f.Ref)
	}
	if !supportsFK(t, f.Cols, nil) {
		ix := &Index{Name: f.Name, Kind: "index", Implicit: true}
		for _, c := range f.Cols {
			ix.Cols = append(ix.Cols, IdxCol{Name: c})
		}
		s.mysqlAddIndex(p, t, ix)
	}
	f.Mark = s.mark()
	t.FKs = append(t.FKs, f)
	s.effect("create", "fk "+t.full()+"."+f.Name, "")
}

func (s *Server) fkByName(name string) *FK {
	for _, t := range s.S.Tables {
		for _, f := range t.FKs {
			if strings.EqualFold(f.Name, name) {
				return f
			}
		}
	}
	return nil
}

func (s *Server) mysqlTable(p *parser) *Table {
	q, n := p.qname()
	if q != "" && q != s.DB {
		p.fail("Unknown database '%s'", q)
	}
	t := s.S.table("", n)
	if t == nil {
		p.fail("Table '%s.%s' doesn't exist", s.DB, n)
	}
	return t
}

// mysqlCheckTable verifies what must hold of a table after every statement.
func (s *Server) mysqlCheckTable(p *parser, t *Table) {
	if len(t.Cols) == 0 {
		p.fail("You can't delete all columns with ALTER TABLE; use DROP TABLE instead")
	}
	auto := 0
	for _, c := range t.Cols {
		if c.AutoInc {
			auto++
			ok := false
			for _, ix := range t.Indexes {
				if ix.Kind != "fulltext" && strings.EqualFold(ix.Cols[0].Name, c.Name) {
					ok = true
				}
			}
			if !ok {
				p.fail("Incorrect table definition; there can be only one auto column and it must be defined as a key")
			}
		}
	}
	if auto > 1 {
		p.fail("Incorrect table definition; there can be only one auto column and it must be defined as a key")
	}
	for _, f := range t.FKs {
		ref := s.S.table("", f.Ref)
		if ref == nil && s.LaterRefs {
			continue
		}
		for i, c := range f.Cols {
			k := t.colFold(c)
			r := ref.colFold(f.RefCols[i])
			if k == nil || r == nil || !sameFKType(k, r) {
				p.fail("Referencing column '%s' and referenced column '%s' in foreign key constraint '%s' are incompatible.", c, f.RefCols[i], f.Name)
			}
			if (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") && k.NotNull {
				p.fail("Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL", c, f.Name)
			}
		}
	}
	for _, o := range s.S.Tables {
		for _, f := range o.FKs {
			if f.Ref == t.Name {
				for i, c := range f.RefCols {
					k, r := t.colFold(c), o.colFold(f.Cols[i])
					if k == nil || r == nil || !sameFKType(k, r) {
						p.fail("Column '%s' is used in a foreign key constraint '%s' of table '%s'", c, f.Name, o.Name)
					}
				}
			}
		}
	}
}

func (s *Server) mysqlStmt(p *parser) {
	switch {
	case p.kw("create"):
		switch {
		case p.kw("table"):
			s.mysqlCreateTable(p)
		case p.isKw("unique", "index"), p.isKw("index"), p.isKw("fulltext", "index"):
			kind := "index"
			if p.kw("unique") {
				kind = "unique"
			} else if p.kw("fulltext") {
				kind = "fulltext"
			}
			p.needKw("index")
			ix := &Index{Kind: kind, Name: p.ident()}
			if p.kw("using") {
				ix.Method = strings.ToUpper(p.ident())
			}
			p.needKw("on")
			t := s.mysqlTable(p)
			ix.Cols = s.mysqlIdxCols(p)
			s.mysqlIdxOptions(p, ix)
			s.mysqlAddIndex(p, t, ix)
			s.mysqlCheckTable(p, t)
		case p.isKw("or", "replace"), p.isKw("view"):
			repl := p.kw("or", "replace")
			p.needKw("view")
			s.mysqlCreateView(p, repl)
		case p.kw("trigger"):
			s.mysqlCreateTrigger(p)
		default:
			p.fail("syntax error near %s", p.near())
		}
	case p.kw("alter", "table"):
		t := s.mysqlTable(p)
		for {
			s.mysqlAlter(p, t)
			if !p.op(",") {
				break
			}
		}
		s.mysqlCheckTable(p, t)
	case p.kw("drop"):
		switch {
		case p.kw("table"):
			t := s.mysqlTable(p)
			for _, o := range s.S.Tables {
				if o == t {
					continue
				}
				for _, f := range o.FKs {
					if f.Ref == t.Name {
						p.fail("Cannot drop table '%s' referenced by a foreign key constraint '%s' on table '%s'.", t.Name, f.Name, o.Name)
					}
				}
			}
			s.dropTable(t)
			for _, g := range append([]*Trigger(nil), s.S.Triggers...) {
				if g.Table == t.Name {
					s.dropTrigger(g, "table "+t.Name)
				}
			}
		case p.kw("view"):
			_, n := p.qname()
			v := s.S.view("", n)
			if v == nil {
				p.fail("Unknown table '%s.%s'", s.DB, n)
			}
			s.dropView(v)
		case p.kw("trigger"):
			_, n := p.qname()
			g := s.S.trigger(n)
			if g == nil {
				p.fail("Trigger does not exist")
			}
			s.dropTrigger(g, "")
		case p.kw("index"):
			n := p.ident()
			p.needKw("on")
			t := s.mysqlTable(p)
			s.mysqlDropIndex(p, t, n)
			s.mysqlCheckTable(p, t)
		default:
			p.fail("syntax error near %s", p.near())
		}
	default:
		p.fail("syntax error near %s", p.near())
	}
}

func (s *Server) dropTable(t *Table) {
	key := "table " + t.full()
	s.effect("drop", key, "")
	for _, c := range t.Cols {
		s.effect("drop", "column "+t.full()+"."+c.Name, key)
	}
	for _, ix := range t.Indexes {
		s.effect("drop", "index "+t.full()+"."+keyNameD(s.D, ix), key)
	}
	for _, f := range t.FKs {
		s.effect("drop", "fk "+t.full()+"."+f.Name, key)
	}
	for _, f := range t.Policies {
		s.effect("drop", "policy "+t.full()+"."+f.Name, key)
	}
	var out []*Table
	for _, x := range s.S.Tables {
		if x != t {
			out = append(out, x)
		}
	}
	s.S.Tables = out
}

func keyNameD(d Dialect, ix *Index) string {
	if d == MSSQL {
		if ix.NamedBySys {
			if ix.Kind == "primary" {
				return "(primary)"
			}
			return "(" + ix.Kind + ")" + strings.Join(ix.names(), ",")
		}
		return ix.Name
	}
	return keyName(ix)
}

func (s *Server) dropView(v *View) {
	n := v.Name
	if v.Schema != "" {
		n = v.Schema + "." + n
	}
	s.effect("drop", "view "+n, "")
	var out []*View
	for _, x := range s.S.Views {
		if x != v {
			out = append(out, x)
		}
	}
	s.S.Views = out
}
func (s *Server) dropTrigger(g *Trigger, via string) {
	s.effect("drop", "trigger "+g.Name, via)
	var out []*Trigger
	for _, x := range s.S.Triggers {
		if x != g {
			out = append(out, x)
		}
	}
	s.S.Triggers = out
}

func (s *Server) mysqlCreateTable(p *parser) {
	ine := p.kw("if", "not", "exists")
	_, n := p.qname()
	t := &Table{Name: n, Charset: "utf8mb4"}
	t.Collate = ""
	if s.S.table("", n) != nil || s.S.view("", n) != nil {
		if ine {
			p.i = len(p.toks)
			return
		}
		p.fail("Table '%s' already exists", n)
	}
	if n == "" || len(n) > 64 || strings.HasSuffix(n, " ") {
		p.fail("Incorrect table name '%s'", n)
	}
	p.needOp("(")
	var defs []*mysqlColDef
	var idx []*Index
	var fks []*FK
	for {
		switch {
		case p.isKw("primary"):
			p.next()
			p.needKw("key")
			ix := &Index{Kind: "primary"}
			if p.kw("using") {
				ix.Method = strings.ToUpper(p.ident())
			}
			ix.Cols = s.mysqlIdxCols(p)
			s.mysqlIdxOptions(p, ix)
			idx = append(idx, ix)
		case p.isKw("unique"), p.isKw("key"), p.isKw("index"), p.isKw("fulltext"):
			idx = append(idx, s.mysqlKeyDef(p))
		case p.isKw("constraint"), p.isKw("foreign"):
			name := ""
			if p.kw("constraint") {
				if !p.isKw("foreign") && !p.isKw("primary") && !p.isKw("unique") {
					name = p.ident()
				}
			}
			switch {
			case p.kw("foreign"):
				p.needKw("key")
				fks = append(fks, s.mysqlFKDef(p, name))
			case p.kw("primary"):
				p.needKw("key")
				ix := &Index{Kind: "primary", Cols: s.mysqlIdxCols(p)}
				idx = append(idx, ix)
			case p.isKw("unique"):
				ix := s.mysqlKeyDef(p)
				if ix.Name == "" {
					ix.Name = name
				}
				idx = append(idx, ix)
			default:
				p.fail("syntax error near %s", p.near())
			}
		default:
			defs = append(defs, s.mysqlColDef(p))
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	for !p.eof() {
		p.op(",")
		switch {
		case p.kw("engine"):
			p.op("=")
			p.nameOrString()
		case p.kw("default"):
		case p.kw("charset"), p.kw("character", "set"):
			p.op("=")
			t.Charset = strings.ToLower(p.nameOrString())
		case p.kw("collate"):
			p.op("=")
			t.Collate = strings.ToLower(p.nameOrString())
		case p.kw("comment"):
			p.op("=")
			t.Comment = p.nameOrString()
		case p.kw("auto_increment"):
			p.op("=")
			p.number()
		case p.kw("row_format"):
			p.op("=")
			p.ident()
		default:
			p.fail("syntax error near %s", p.near())
		}
	}
	if t.Collate == "" {
		t.Collate = s.mysqlDefaultCollation(t.Charset)
	} else if k, ok := mysqlCollations[t.Collate]; !ok {
		p.fail("Unknown collation: '%s'", t.Collate)
	} else {
		t.Charset = k
	}
	s.S.Tables = append(s.S.Tables, t)
	t.Mark = s.mark()
	s.effect("create", "table "+t.full(), "")
	for _, d := range defs {
		if t.colFold(d.col.Name) != nil {
			p.fail("Duplicate column name '%s'", d.col.Name)
		}
		s.mysqlFinish(p, t, d)
		d.col.Mark = s.mark()
		t.Cols = append(t.Cols, d.col)
	}
	for _, d := range defs {
		if d.primary {
			s.mysqlAddIndex(p, t, &Index{Kind: "primary", Cols: []IdxCol{{Name: d.col.Name}}})
		}
	}
	for _, ix := range idx {
		if ix.Kind == "primary" {
			for _, c := range ix.Cols {
				for _, d := range defs {
					if strings.EqualFold(d.col.Name, c.Name) && d.explNull {
						p.fail("All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
					}
				}
			}
		}
		s.mysqlAddIndex(p, t, ix)
	}
	for _, d := range defs {
		if d.unique {
			s.mysqlAddIndex(p, t, &Index{Kind: "unique", Cols: []IdxCol{{Name: d.col.Name}}})
		}
	}
	for _, f := range fks {
		s.mysqlAddFK(p, t, f)
	}
	s.mysqlCheckTable(p, t)
}

// mysqlKeyDef reads UNIQUE [KEY] / KEY / FULLTEXT KEY definitions.
func (s *Server) mysqlKeyDef(p *parser) *Index {
	ix := &Index{Kind: "index"}
	switch {
	case p.kw("unique"):
		ix.Kind = "unique"
		if !p.kw("key") {
			p.kw("index")
		}
	case p.kw("fulltext"):
		ix.Kind = "fulltext"
		if !p.kw("key") {
			p.kw("index")
		}
	default:
		if !p.kw("key") {
			p.needKw("index")
		}
	}
	if !p.isOp("(") && !p.isKw("using") {
		ix.Name = p.ident()
	}
	if p.kw("using") {
		ix.Method = strings.ToUpper(p.ident())
	}
	ix.Cols = s.mysqlIdxCols(p)
	s.mysqlIdxOptions(p, ix)
	return ix
}

func (s *Server) mysqlDropIndex(p *parser, t *Table, n string) {
	ix := t.index(n)
	if ix == nil {
		p.fail("Can't DROP '%s'; check that column/key exists", n)
	}
	for _, f := range t.FKs {
		if !supportsFK(t, f.Cols, ix) {
			p.fail("Cannot drop index '%s': needed in a foreign key constraint", n)
		}
	}
	for _, o := range s.S.Tables {
		for _, f := range o.FKs {
			if f.Ref == t.Name && !supportsFK(t, f.RefCols, ix) {
				p.fail("Cannot drop index '%s': needed in a foreign key constraint", n)
			}
		}
	}
	removeIndex(t, ix)
	s.effect("drop", "index "+t.full()+"."+keyName(ix), "")
}

func (s *Server) mysqlAlter(p *parser, t *Table) {
	switch {
	case p.kw("add"):
		switch {
		case p.isKw("unique"), p.isKw("key"), p.isKw("index"), p.isKw("fulltext"):
			s.mysqlAddIndex(p, t, s.mysqlKeyDef(p))
		case p.kw("primary"):
			p.needKw("key")
			ix := &Index{Kind: "primary", Cols: s.mysqlIdxCols(p)}
			s.mysqlIdxOptions(p, ix)
			s.mysqlAddIndex(p, t, ix)
		case p.isKw("constraint"), p.isKw("foreign"):
			name := ""
			if p.kw("constraint") && !p.isKw("foreign") {
				name = p.ident()
			}
			p.needKw("foreign", "key")
			s.mysqlAddFK(p, t, s.mysqlFKDef(p, name))
		default:
			p.kw("column")
			d := s.mysqlColDef(p)
			if t.colFold(d.col.Name) != nil {
				p.fail("Duplicate column name '%s'", d.col.Name)
			}
			s.mysqlFinish(p, t, d)
			d.col.Mark = s.mark()
			pos := s.mysqlPos(p, t, len(t.Cols))
			t.Cols = append(t.Cols, nil)
			copy(t.Cols[pos+1:], t.Cols[pos:])
			t.Cols[pos] = d.col
			s.effect("create", "column "+t.full()+"."+d.col.Name, "")
			if d.primary {
				s.mysqlAddIndex(p, t, &Index{Kind: "primary", Cols: []IdxCol{{Name: d.col.Name}}})
			}
			if d.unique {
				s.mysqlAddIndex(p, t, &Index{Kind: "unique", Cols: []IdxCol{{Name: d.col.Name}}})
			}
		}
	case p.isKw("change"), p.isKw("modify"):
		var old string
		if p.kw("change") {
			p.kw("column")
			old = p.ident()
		} else {
			p.next()
			p.kw("column")
			old = p.peek().s
		}
		c := t.colFold(old)
		if c == nil {
			p.fail("Unknown column '%s' in '%s'", old, t.Name)
		}
		d := s.mysqlColDef(p)
		if o := t.colFold(d.col.Name); o != nil && o != c {
			p.fail("Duplicate column name '%s'", d.col.Name)
		}
		s.mysqlFinish(p, t, d)
		n := d.col
		n.Mark = c.Mark
		if pk := t.primary(); pk != nil && pk.has(c.Name) {
			if d.explNull {
				p.fail("All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
			}
			n.NotNull = true
		}
		pos := t.colPos(old)
		moved := p.isKw("first") || p.isKw("after")
		if moved {
			t.Cols = append(append([]*Col(nil), t.Cols[:pos]...), t.Cols[pos+1:]...)
			pos = s.mysqlPos(p, t, pos)
			t.Cols = append(t.Cols, nil)
			copy(t.Cols[pos+1:], t.Cols[pos:])
			t.Cols[pos] = n
			s.effect("move", "column "+t.full()+"."+c.Name, "")
		} else {
			t.Cols[pos] = n
			s.effect("alter", "column "+t.full()+"."+c.Name, "")
		}
		if n.Name != c.Name {
			for _, ix := range t.Indexes {
				for i := range ix.Cols {
					if strings.EqualFold(ix.Cols[i].Name, c.Name) {
						ix.Cols[i].Name = n.Name
					}
				}
			}
		}
		if d.primary {
			s.mysqlAddIndex(p, t, &Index{Kind: "primary", Cols: []IdxCol{{Name: n.Name}}})
		}
		if d.unique {
			s.mysqlAddIndex(p, t, &Index{Kind: "unique", Cols: []IdxCol{{Name: n.Name}}})
		}
		for _, ix := range t.Indexes { // the keys must still be valid
			for i := range ix.Cols {
				if strings.EqualFold(ix.Cols[i].Name, n.Name) && ix.Kind != "fulltext" {
					if (strings.HasSuffix(n.Type, "text") || strings.HasSuffix(n.Type, "blob")) && ix.Cols[i].Len == "" {
						p.fail("BLOB/TEXT column '%s' used in key specification without a key length", n.Name)
					}
				}
			}
		}
	case p.kw("drop"):
		switch {
		case p.kw("primary", "key"):
			pk := t.primary()
			if pk == nil {
				p.fail("Can't DROP 'PRIMARY'; check that column/key exists")
			}
			s.mysqlDropIndex(p, t, "PRIMARY")
		case p.kw("index"), p.kw("key"):
			s.mysqlDropIndex(p, t, p.ident())
		case p.kw("foreign", "key"):
			n := p.ident()
			var f *FK
			for _, x := range t.FKs {
				if strings.EqualFold(x.Name, n) {
					f = x
				}
			}
			if f == nil {
				p.fail("Can't DROP '%s'; check that column/key exists", n)
			}
			removeFK(t, f)
			s.effect("drop", "fk "+t.full()+"."+f.Name, "")
		default:
			p.kw("column")
			n := p.ident()
			c := t.colFold(n)
			if c == nil {
				p.fail("Can't DROP '%s'; check that column/key exists", n)
			}
			for _, f := range t.FKs {
				for _, x := range f.Cols {
					if strings.EqualFold(x, n) {
						p.fail("Cannot drop column '%s': needed in a foreign key constraint '%s'", n, f.Name)
					}
				}
			}
			key := "column " + t.full() + "." + c.Name
			s.effect("drop", key, "")
			removeCol(t, n)
			for _, ix := range append([]*Index(nil), t.Indexes...) {
				if !ix.has(n) {
					continue
				}
				var keep []IdxCol
				for _, x := range ix.Cols {
					if !strings.EqualFold(x.Name, n) {
						keep = append(keep, x)
					}
				}
				ix.Cols = keep
				if len(keep) == 0 {
					removeIndex(t, ix)
					s.effect("drop", "index "+t.full()+"."+keyName(ix), key)
				} else {
					s.effect("alter", "index "+t.full()+"."+keyName(ix), key)
				}
			}
			for _, f := range t.FKs {
				if !supportsFK(t, f.Cols, nil) {
					p.fail("Cannot drop column '%s': needed in a foreign key constraint '%s'", n, f.Name)
				}
			}
		}
	default:
		p.fail("syntax error near %s", p.near())
	}
}

func (s *Server) mysqlPos(p *parser, t *Table, def int) int {
	if p.kw("first") {
		return 0
	}
	if p.kw("after") {
		n := p.ident()
		i := t.colPos(n)
		if i < 0 {
			p.fail("Unknown column '%s' in '%s'", n, t.Name)
		}
		return i + 1
	}
	return def
}

// mysqlCreateView accepts SELECT col [AS alias], ... FROM table [AS alias] [WHERE ...].
func (s *Server) mysqlCreateView(p *parser, repl bool) {
	_, n := p.qname()
	if s.S.table("", n) != nil {
		p.fail("'%s.%s' is not VIEW", s.DB, n)
	}
	old := s.S.view("", n)
	if old != nil && !repl {
		p.fail("Table '%s' already exists", n)
	}
	p.needKw("as")
	def := p.toks[p.i:]
	v := &View{Name: n, Text: p.src}
	v.Tables, v.Uses = s.checkSelect(p)
	v.Def = joinTokens(stripParens(def))
	v.Raw = mysqlTokensSQL(stripParens(def))
	if old != nil {
		v.Mark = old.Mark
		*old = *v
		s.effect("alter", "view "+n, "")
		return
	}
	v.Mark = s.mark()
	s.S.Views = append(s.S.Views, v)
	s.effect("create", "view "+n, "")
}

func mysqlTokensSQL(toks []token) string {
	var sb strings.Builder
	for i, t := range toks {
		if i > 0 {
			pr := toks[i-1]
			if !(t.k == tOp && (t.s == "." || t.s == "," || t.s == ")")) && !(pr.k == tOp && (pr.s == "." || pr.s == "(")) {
				if !(pr.k == tOp && pr.s == ",") {
					sb.WriteByte(' ')
				}
			}
		}
		switch t.k {
		case tQuoted:
			sb.WriteString("`" + t.s + "`")
		case tString:
			sb.WriteString("'" + mysqlQuote(t.s) + "'")
		case tWord:
			if reserved[MySQL][strings.ToLower(t.s)] || i+1 < len(toks) && toks[i+1].k == tOp && toks[i+1].s == "(" {
				sb.WriteString(strings.ToLower(t.s))
			} else {
				sb.WriteString("`" + t.s + "`")
			}
		default:
			sb.WriteString(t.s)
		}
	}
	return sb.String()
}

// checkSelect checks the tables and qualified columns named by a SELECT up to
// the end of the statement.
func (s *Server) checkSelect(p *parser) ([]string, map[string]map[string]bool) {
	toks := stripParens(p.toks[p.i:])
	p.i = len(p.toks)
	if len(toks) == 0 || toks[0].k != tWord || !strings.EqualFold(toks[0].s, "select") {
		p.fail("syntax error: a view needs a SELECT")
	}
	aliases := map[string]string{} // alias -> table full name
	var tables []string
	uses := map[string]map[string]bool{}
	name := func(t token) string {
		if t.k == tWord && s.D == Postgres {
			return strings.ToLower(t.s)
		}
		return t.s
	}
	isName := func(t token) bool {
		return t.k == tQuoted || t.k == tWord && !reserved[s.D][strings.ToLower(t.s)]
	}
	for i := 0; i < len(toks); i++ {
		if toks[i].k == tWord && (strings.EqualFold(toks[i].s, "from") || strings.EqualFold(toks[i].s, "join")) {
			j := i + 1
			var parts []string
			for j < len(toks) && isName(toks[j]) {
				parts = append(parts, name(toks[j]))
				j++
				if j < len(toks) && toks[j].k == tOp && toks[j].s == "." {
					j++
					continue
				}
				break
			}
			if len(parts) == 0 {
				p.fail("syntax error: FROM needs a table")
			}
			schema, tn := s.defaultSchema(), parts[len(parts)-1]
			if len(parts) == 2 && s.D != MySQL {
				schema = parts[0]
			}
			if len(parts) == 2 && s.D == MySQL && parts[0] != s.DB {
				p.fail("Unknown database '%s'", parts[0])
			}
			t := s.S.table(schema, tn)
			if t == nil && s.S.view(schema, tn) == nil {
				p.fail("relation \"%s\" does not exist", strings.Join(parts, "."))
			}
			if t != nil {
				aliases[tn] = t.full()
				tables = append(tables, t.full())
				uses[t.full()] = map[string]bool{}
				if j < len(toks) && toks[j].k == tWord && strings.EqualFold(toks[j].s, "as") {
					j++
				}
				if j < len(toks) && isName(toks[j]) {
					aliases[name(toks[j])] = t.full()
				}
			}
		}
	}
	for i := 0; i+2 < len(toks); i++ {
		if isName(toks[i]) && toks[i+1].k == tOp && toks[i+1].s == "." && isName(toks[i+2]) && !(i+3 < len(toks) && toks[i+3].k == tOp && toks[i+3].s == ".") {
			if f, ok := aliases[name(toks[i])]; ok {
				for _, t := range s.S.Tables {
					if t.full() == f {
						c := t.colFold(name(toks[i+2]))
						if c == nil {
							p.fail("column %s.%s does not exist", toks[i].s, toks[i+2].s)
						}
						uses[f][c.Name] = true
					}
				}
			}
		}
	}
	// unqualified columns: any name that is a column of one of the tables
	for i := range toks {
		if isName(toks[i]) {
			for _, f := range tables {
				for _, t := range s.S.Tables {
					if t.full() == f {
						if c := t.col(name(toks[i])); c != nil {
							uses[f][c.Name] = true
						}
					}
				}
			}
		}
	}
	return tables, uses
}

func (s *Server) defaultSchema() string {
	switch s.D {
	case Postgres:
		return "public"
	case MSSQL:
		return "dbo"
	}
	return ""
}

func (s *Server) mysqlCreateTrigger(p *parser) {
	_, n := p.qname()
	if s.S.trigger(n) != nil {
		p.fail("Trigger already exists")
	}
	g := &Trigger{Name: n}
	switch {
	case p.kw("before"):
		g.Timing = "BEFORE"
	case p.kw("after"):
		g.Timing = "AFTER"
	default:
		p.fail("syntax error near %s", p.near())
	}
	switch {
	case p.kw("insert"):
		g.Event = "INSERT"
	case p.kw("update"):
		g.Event = "UPDATE"
	case p.kw("delete"):
		g.Event = "DELETE"
	default:
		p.fail("syntax error near %s", p.near())
	}
	p.needKw("on")
	g.Table = s.mysqlTable(p).Name
	p.needKw("for", "each", "row")
	body := p.toks[p.i:]
	if len(body) == 0 {
		p.fail("syntax error: empty trigger body")
	}
	first := body[0].lower()
	if body[0].k != tWord || first != "insert" && first != "set" && first != "update" && first != "delete" {
		p.fail("syntax error near %s", p.near())
	}
	p.i = len(p.toks)
	g.Body = joinTokens(body)
	g.Raw = p.src[body[0].pos:body[len(body)-1].end]
	g.Mark = s.mark()
	s.S.Triggers = append(s.S.Triggers, g)
	s.effect("create", "trigger "+n, "")
}

func mysqlQuote(v string) string {
	var sb strings.Builder
	for i := 0; i < len(v); i++ {
		switch v[i] {
		case '\'':
			sb.WriteString("''")
		case '\\':
			sb.WriteString("\\\\")
		case '\n':
			sb.WriteString("\\n")
		case '\r':
			sb.WriteString("\\r")
		case 0:
			sb.WriteString("\\0")
		default:
			sb.WriteByte(v[i])
		}
	}
	return sb.String()
}

func bq(n string) string { return "`" + strings.ReplaceAll(n, "`", "``") + "`" }

// ShowCreate renders SHOW CREATE TABLE.
func (s *Server) ShowCreate(t *Table) string {
	var lines []string
	for _, c := range t.Cols {
		l := "  " + bq(c.Name) + " " + c.Type
		if c.Enum != nil {
			var e []string
			for _, x := range c.Enum {
				e = append(e, "'"+mysqlQuote(x)+"'")
			}
			l += "(" + strings.Join(e, ",") + ")"
		} else if len(c.Args) > 0 {
			l += "(" + strings.Join(c.Args, ",") + ")"
		}
		if c.Unsigned {
			l += " unsigned"
		}
		if c.Zerofill {
			l += " zerofill"
		}
		if c.Charset != "" {
			if c.Charset != t.Charset || c.Collate != t.Collate {
				l += " CHARACTER SET " + c.Charset
			}
			if c.Collate != s.mysqlDefaultCollation(c.Charset) {
				l += " COLLATE " + c.Collate
			}
		}
		if c.NotNull {
			l += " NOT NULL"
		} else if c.Type == "timestamp" {
			l += " NULL"
		}
		switch {
		case c.Default != nil && c.Default.Kind == "str":
			l += " DEFAULT '" + mysqlQuote(c.Default.S) + "'"
		case c.Default != nil && c.Default.Kind == "bit":
			l += " DEFAULT b'" + c.Default.S + "'"
		case c.Default != nil:
			l += " DEFAULT " + c.Default.S
		case !c.NotNull && !mysqlNoDefault[c.Type]:
			l += " DEFAULT NULL"
		case !c.NotNull && c.Type == "json":
			l += " DEFAULT NULL"
		}
		if c.OnUpdate != "" {
			l += " ON UPDATE " + c.OnUpdate
		}
		if c.AutoInc {
			l += " AUTO_INCREMENT"
		}
		if c.Comment != "" {
			l += " COMMENT '" + mysqlQuote(c.Comment) + "'"
		}
		lines = append(lines, l)
	}
	idx := append([]*Index(nil), t.Indexes...)
	rank := func(ix *Index) int {
		switch ix.Kind {
		case "primary":
			return 0
		case "unique":
			for _, c := range ix.Cols {
				if !t.colFold(c.Name).NotNull {
					return 2
				}
			}
			return 1
		case "fulltext":
			return 4
		}
		return 3
	}
	sort.SliceStable(idx, func(i, j int) bool { return rank(idx[i]) < rank(idx[j]) })
	for _, ix := range idx {
		l := "  "
		switch ix.Kind {
		case "primary":
			l += "PRIMARY KEY "
		case "unique":
			l += "UNIQUE KEY " + bq(ix.Name) + " "
		case "fulltext":
			l += "FULLTEXT KEY " + bq(ix.Name) + " "
		default:
			l += "KEY " + bq(ix.Name) + " "
		}
		var cols []string
		for _, c := range ix.Cols {
			x := bq(c.Name)
			if c.Len != "" {
				x += "(" + c.Len + ")"
			}
			if c.Desc {
				x += " DESC"
			}
			cols = append(cols, x)
		}
		l += "(" + strings.Join(cols, ",") + ")"
		if ix.Method != "" {
			l += " USING " + ix.Method
		}
		if ix.Comment != "" {
			l += " COMMENT '" + mysqlQuote(ix.Comment) + "'"
		}
		if ix.Parser != "" {
			l += " /*!50100 WITH PARSER `" + ix.Parser + "` */ "
		}
		lines = append(lines, l)
	}
	fks := append([]*FK(nil), t.FKs...)
	sort.SliceStable(fks, func(i, j int) bool { return fks[i].Name < fks[j].Name })
	for _, f := range fks {
		var a, b []string
		for i := range f.Cols {
			a = append(a, bq(f.Cols[i]))
			b = append(b, bq(f.RefCols[i]))
		}
		l := "  CONSTRAINT " + bq(f.Name) + " FOREIGN KEY (" + strings.Join(a, ", ") + ") REFERENCES " + bq(f.Ref) + " (" + strings.Join(b, ", ") + ")"
		if f.OnDelete != "" {
			l += " ON DELETE " + f.OnDelete
		}
		if f.OnUpdate != "" {
			l += " ON UPDATE " + f.OnUpdate
		}
		lines = append(lines, l)
	}
	out := "CREATE TABLE " + bq(t.Name) + " (\n" + strings.Join(lines, ",\n") + "\n) ENGINE=InnoDB"
	for _, c := range t.Cols {
		if c.AutoInc && t.Mark%3 == 0 {
			out += " AUTO_INCREMENT=5"
		}
	}
	out += " DEFAULT CHARSET=" + t.Charset
	if t.Collate != s.mysqlDefaultCollation(t.Charset) || s.Flavor == "8.0" {
		out += " COLLATE=" + t.Collate
	}
	if t.Comment != "" {
		out += " COMMENT='" + mysqlQuote(t.Comment) + "'"
	}
	return out
}

// mysqlQuery answers the catalog queries.
func (s *Server) mysqlQuery(q string) (cols []string, rows [][]interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(parseAbort)
			if !ok {
				panic(r)
			}
			err = a.err
		}
	}()
	p, e := newParser(MySQL, q)
	if e != nil {
		return nil, nil, e
	}
	switch {
	case p.kw("show"):
		switch {
		case p.isKw("full", "tables"), p.isKw("tables"):
			full := p.kw("full")
			p.needKw("tables")
			cols = []string{"Tables_in_" + s.DB}
			if full {
				cols = append(cols, "Table_type")
			}
			want := func(string) bool { return true }
			if p.kw("where") {
				if !strings.EqualFold(p.ident(), "table_type") {
					p.fail("unknown column")
				}
				op := p.next().s
				v := p.next().s
				want = func(x string) bool { return strings.EqualFold(x, v) == (op == "=") }
			}
			p.needEOF()
			type nt struct{ n, t string }
			var all []nt
			for _, t := range s.S.Tables {
				all = append(all, nt{t.Name, "BASE TABLE"})
			}
			for _, v := range s.S.Views {
				all = append(all, nt{v.Name, "VIEW"})
			}
			sort.Slice(all, func(i, j int) bool { return all[i].n < all[j].n })
			for _, x := range all {
				if want(x.t) {
					if full {
						rows = append(rows, []interface{}{x.n, x.t})
					} else {
						rows = append(rows, []interface{}{x.n})
					}
				}
			}
			return cols, rows, nil
		case p.kw("create", "table"):
			_, n := p.qname()
			p.needEOF()
			if t := s.S.table("", n); t != nil {
				return []string{"Table", "Create Table"}, [][]interface{}{{t.Name, s.ShowCreate(t)}}, nil
			}
			return nil, nil, errf("Table '%s.%s' doesn't exist", s.DB, n)
		case p.kw("triggers"):
			p.needEOF()
			cols = []string{"Trigger", "Event", "Table", "Statement", "Timing", "Created", "sql_mode", "Definer", "character_set_client", "collation_connection", "Database Collation"}
			for _, g := range s.S.Triggers {
				rows = append(rows, []interface{}{g.Name, g.Event, g.Table, g.Raw, g.Timing, "2020-01-01 00:00:00.00", "STRICT_TRANS_TABLES", "root@%", "utf8mb4", "utf8mb4_general_ci", "utf8mb4_general_ci"})
			}
			return cols, rows, nil
		}
	case p.kw("select"):
		// select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where ...
		if strings.EqualFold(p.ident(), "view_definition") {
			p.needKw("from")
			a, b := p.qname()
			if strings.EqualFold(a, "information_schema") && strings.EqualFold(b, "views") {
				p.needKw("where")
				conds := map[string]string{}
				for {
					k := strings.ToLower(p.ident())
					p.needOp("=")
					if p.kw("database") {
						p.needOp("(")
						p.needOp(")")
						conds[k] = s.DB
					} else {
						t := p.next()
						if t.k != tString {
							p.fail("syntax error near %s", p.near())
						}
						conds[k] = t.s
					}
					if !p.kw("and") {
						break
					}
				}
				p.needEOF()
				for _, v := range s.S.Views {
					ok := true
					for k, x := range conds {
						switch k {
						case "table_name":
							ok = ok && v.Name == x
						case "table_schema":
							ok = ok && s.DB == x
						default:
							p.fail("unknown column %s", k)
						}
					}
					if ok {
						rows = append(rows, []interface{}{v.Raw})
					}
				}
				return []string{"VIEW_DEFINITION"}, rows, nil
			}
		}
	}
	return nil, nil, errf("syntax error or unknown query: %s", q)
}
