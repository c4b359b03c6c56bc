package gen

import (
	"fmt"
	"regexp"
	"strings"

	"verif.local/harness/engine"
)

// Conditions (checks, predicates of indexes, policies, views) are templates:
// {name} is a column.

var reTmpl = regexp.MustCompile(`\{([^}]*)\}`)

func tmplCols(s string) []string {
	var out []string
	for _, m := range reTmpl.FindAllStringSubmatch(s, -1) {
		out = append(out, m[1])
	}
	return out
}

// ID names a table with its schema.
func (t *Table) ID() string {
	if t.Schema == "" {
		return t.Name
	}
	return t.Schema + "." + t.Name
}

// TableID finds a table by its qualified name.
func (s *Schema) TableID(id string) *Table {
	for _, t := range s.Tables {
		if t.ID() == id {
			return t
		}
	}
	return nil
}

// ID names a view with its schema.
func (v *View) ID() string { return v.Schema + "." + v.Name }

func (s *Schema) viewID(id string) *View {
	for _, v := range s.Views {
		if v.ID() == id {
			return v
		}
	}
	return nil
}

// PgCfg tunes the generator.
type PgCfg struct {
	Odd    int
	MaxTab int
}

func pgSerial(c *Col) bool { return strings.HasSuffix(c.Type, "serial") }
func pgInt(c *Col) bool {
	return !c.Array && (c.Type == "smallint" || c.Type == "integer" || c.Type == "bigint")
}
func pgNum(c *Col) bool {
	return pgInt(c) || !c.Array && (c.Type == "numeric" || c.Type == "real" || c.Type == "double precision")
}
func pgStr(c *Col) bool {
	return !c.Array && (c.Type == "text" || c.Type == "character varying" || c.Type == "character")
}
func pgTime(c *Col) bool { return strings.HasPrefix(c.Type, "timestamp") || c.Type == "date" }

func pgType(t *engine.T, c *Col) {
	c.Args, c.Array, c.Def, c.Check, c.Identity = nil, false, nil, "", ""
	switch t.N(20) {
	case 0, 1, 2:
		c.Type = "integer"
	case 3:
		c.Type = "bigint"
	case 4:
		c.Type = "smallint"
	case 5, 6:
		c.Type, c.Args = "character varying", []string{engine.Pick(t, []string{"20", "40", "255"})}
	case 7:
		c.Type = "character varying"
	case 8:
		c.Type, c.Args = "character", []string{engine.Pick(t, []string{"1", "8", "36"})}
	case 9, 10:
		c.Type = "text"
	case 11:
		c.Type = "numeric"
		if t.Bool() {
			c.Args = []string{engine.Pick(t, []string{"10", "12"}), engine.Pick(t, []string{"2", "4"})}
		}
	case 12:
		c.Type = engine.Pick(t, []string{"real", "double precision"})
	case 13:
		c.Type = "timestamp without time zone"
		if t.Chance(20) {
			c.Args = []string{engine.Pick(t, []string{"3", "6"})}
		}
	case 14:
		c.Type = "timestamp with time zone"
	case 15:
		c.Type = engine.Pick(t, []string{"date", "time without time zone"})
	case 16:
		c.Type = "boolean"
	case 17:
		c.Type = engine.Pick(t, []string{"uuid", "json", "jsonb"})
	case 18:
		c.Type, c.Array = engine.Pick(t, []string{"integer", "text", "bigint"}), true
	case 19:
		c.Type = engine.Pick(t, []string{"serial", "bigserial", "smallserial"})
		if t.Chance(30) {
			c.Type, c.Args = "bit", []string{"8"}
		}
	}
}

func pgDefault(t *engine.T, c *Col) {
	c.Def = nil
	if c.Identity != "" || pgSerial(c) {
		return
	}
	switch {
	case c.Array:
		if t.Bool() {
			c.Def = &Def{"str", "{}"}
		}
	case pgInt(c):
		c.Def = &Def{"num", engine.Pick(t, []string{"0", "1", "20", "32000", "-1", "-20"})}
	case c.Type == "numeric":
		c.Def = &Def{"num", engine.Pick(t, []string{"0", "3", "10.5", "-1", "-2.5"})}
	case c.Type == "real" || c.Type == "double precision":
		c.Def = &Def{"num", engine.Pick(t, []string{"1.5", "0.25", "3"})}
	case pgStr(c):
		vals := []string{"", "a", "b", "x"}
		if c.Type != "character" || c.Args[0] != "1" {
			vals = append(vals, "n/a", "A,b(c)", "null", "it's", "b\\s", "100%", "é", "\"dq\"", "-- x", "a;b", "DROP")
		}
		c.Def = &Def{"str", engine.Pick(t, vals)}
	case strings.HasPrefix(c.Type, "timestamp"):
		c.Def = &Def{"func", engine.Pick(t, []string{"now()", "CURRENT_TIMESTAMP"})}
		if t.Chance(20) {
			c.Def = &Def{"str", "2020-01-01 00:00:00"}
			if c.Type == "timestamp with time zone" {
				c.Def.S += "+00"
			}
		}
	case c.Type == "date":
		c.Def = &Def{"str", engine.Pick(t, []string{"2020-01-01", "1999-12-31"})}
		if t.Bool() {
			c.Def = &Def{"func", "CURRENT_DATE"}
		}
	case c.Type == "time without time zone":
		c.Def = &Def{"str", "10:30:00"}
	case c.Type == "boolean":
		c.Def = &Def{"bool", engine.Pick(t, []string{"true", "false"})}
	case c.Type == "json" || c.Type == "jsonb":
		c.Def = &Def{"str", engine.Pick(t, []string{"{}", "[]", "{\"a\": 1}"})}
	}
}

// pgCond makes a condition on columns of the table; full puts the
// parentheses the server prints in most places.
func pgCond(t *engine.T, cols []*Col, full bool) string {
	par := func(s string) string {
		if full {
			return "(" + s + ")"
		}
		return s
	}
	var atoms []string
	n := 1
	if t.Chance(35) {
		n = 2
	}
	for i := 0; i < n; i++ {
		c := engine.Pick(t, cols)
		x := "{" + c.Name + "}"
		switch {
		case c.Type == "boolean":
			atoms = append(atoms, engine.Pick(t, []string{x, x, par(x + " = true"), par(x + " IS NOT NULL")}))
		case pgInt(c) && t.Chance(85):
			atoms = append(atoms, par(x+" "+engine.Pick(t, []string{">", ">=", "<", "<=", "=", "<>"})+" "+engine.Pick(t, []string{"0", "1", "10", "100"})))
		default:
			atoms = append(atoms, par(x+engine.Pick(t, []string{" IS NULL", " IS NOT NULL"})))
		}
	}
	if n == 1 {
		return atoms[0]
	}
	return par(strings.Join(atoms, engine.Pick(t, []string{" AND ", " OR "})))
}

func pgCheck(t *engine.T, c *Col) {
	if pgInt(c) && plainLower(c.Name) {
		c.Check = pgCond(t, []*Col{c}, false)
		c.NoInh = t.Chance(20)
	}
}

func plainLower(n string) bool { return plain(n) && strings.ToLower(n) == n }

func pgCol(t *engine.T, name string) *Col {
	c := &Col{Name: name}
	pgType(t, c)
	c.NotNull = t.Chance(45)
	if t.Chance(40) {
		pgDefault(t, c)
	}
	if t.Chance(20) {
		pgCheck(t, c)
	}
	if pgInt(c) && c.Def == nil && t.Chance(12) {
		c.Identity = engine.Pick(t, []string{"ALWAYS", "BY DEFAULT"})
	}
	return c
}

func (s *Schema) takenID(schema, n string) bool {
	for _, t := range s.Tables {
		if t.Schema == schema && t.Name == n {
			return true
		}
	}
	for _, v := range s.Views {
		if v.Schema == schema && v.Name == n {
			return true
		}
	}
	return false
}

var pgSchemas = []string{"public", "public", "public", "public", "app"}

func pgTable(t *engine.T, cfg PgCfg, s *Schema) *Table {
	tb := &Table{Schema: engine.Pick(t, pgSchemas)}
	tb.Name = freshName(t, tableNames, oddTableNames, cfg.Odd, func(n string) bool { return s.takenID(tb.Schema, n) })
	if t.Chance(75) {
		c := &Col{Name: "id", Type: engine.Pick(t, []string{"integer", "bigint", "serial", "bigserial", "uuid"}), NotNull: true}
		if pgInt(c) && t.Chance(30) {
			c.Identity = engine.Pick(t, []string{"ALWAYS", "BY DEFAULT"})
		}
		tb.Cols = append(tb.Cols, c)
		tb.Idx = append(tb.Idx, &Index{Kind: "primary", Cols: []IdxCol{{Name: "id"}}})
	}
	for i := t.Range(1, 6); i > 0; i-- {
		tb.Cols = append(tb.Cols, pgCol(t, freshName(t, colNames, pgOddColNames, cfg.Odd, tb.takenCol)))
	}
	for i := t.N(4); i > 0; i-- {
		pgAddIndex(t, tb)
	}
	for i := t.N(3); i > 0; i-- {
		pgAddFK(t, s, tb)
	}
	for i := t.N(3); i > 0; i-- {
		pgAddPolicy(t, tb)
	}
	return tb
}

func pgKeyable(c *Col) bool { return c.Type != "json" }

func pgIdxCols(t *engine.T, tb *Table, method string) []IdxCol {
	var out []IdxCol
	perm := append([]*Col(nil), tb.Cols...)
	engine.Shuffle(t, perm)
	n := t.Range(1, 3)
	if method == "hash" {
		n = 1
	}
	for _, c := range perm {
		if len(out) >= n {
			break
		}
		if c.Type == "json" || method == "gin" && c.Type != "jsonb" && !c.Array {
			continue
		}
		x := IdxCol{Name: c.Name}
		if method == "btree" && t.Chance(20) {
			x.Desc = true
		}
		out = append(out, x)
	}
	return out
}

func pgKeyName(tb *Table, col string) string { return tb.Name + "_" + col + "_key" }

func pgAddIndex(t *engine.T, tb *Table) {
	if t.Chance(22) { // inline UNIQUE
		c := engine.Pick(t, tb.Cols)
		n := pgKeyName(tb, c.Name)
		if pk := tb.PK(); pgKeyable(c) && tb.Index(n) == nil && !(pk != nil && len(pk.Cols) == 1 && pk.Has(c.Name)) {
			tb.Idx = append(tb.Idx, &Index{Name: n, Kind: "unique", Con: true, Cols: []IdxCol{{Name: c.Name}}})
		}
		return
	}
	m := "btree"
	if t.Chance(12) {
		m = engine.Pick(t, []string{"hash", "gin"})
	}
	cols := pgIdxCols(t, tb, m)
	if len(cols) == 0 {
		return
	}
	ix := &Index{Kind: "index", Cols: cols, Method: m}
	if m == "btree" && t.Chance(45) {
		ix.Kind = "unique"
	}
	if t.Chance(25) {
		ix.Where = pgCond(t, tb.Cols, true)
	}
	ix.Name = tb.Name + "_" + freshName(t, []string{"idx_a", "idx_b", "by_user", "uq1", "K3"}, []string{"my-idx"}, 6, func(n string) bool { return tb.Index(tb.Name+"_"+n) != nil })
	tb.Idx = append(tb.Idx, ix)
}

func pgAddFK(t *engine.T, s *Schema, tb *Table) {
	var refs []*Table
	for _, o := range s.Tables {
		if o == tb {
			break
		}
		if len(uniqueCols(o)) > 0 {
			refs = append(refs, o)
		}
	}
	if pk := tb.PK(); pk != nil && len(pk.Cols) == 1 && t.Chance(15) {
		refs = append(refs, tb)
	}
	if len(refs) == 0 {
		return
	}
	ref := engine.Pick(t, refs)
	cands := uniqueCols(ref)
	if ref == tb {
		cands = []*Col{tb.Col(tb.PK().Cols[0].Name)}
	}
	rc := engine.Pick(t, cands)
	if rc == nil || rc.Array || rc.Type == "json" {
		return
	}
	name := engine.Pick(t, []string{"user_id", "parent_id", "ref_id", "owner"})
	c := tb.Col(name)
	if c == nil {
		c = &Col{Name: name}
		tb.Cols = append(tb.Cols, c)
	} else {
		if pgColInUse(s, tb, name) || c == rc {
			return
		}
	}
	c.Type, c.Args, c.Array = rc.Type, append([]string(nil), rc.Args...), false
	switch c.Type {
	case "serial":
		c.Type = "integer"
	case "bigserial":
		c.Type = "bigint"
	case "smallserial":
		c.Type = "smallint"
	}
	c.Def, c.Check, c.NoInh, c.Identity = nil, "", false, ""
	f := &FK{Name: "fk_" + sanitize(strings.ToLower(tb.Name)) + "_" + name + fmt.Sprint(hash(ref.ID()+rc.Name)%100), Col: name, Ref: ref.ID(), RefCol: rc.Name}
	if t.Chance(10) {
		f.Name = strings.Replace(f.Name, "fk_", "FK-", 1)
	}
	pgFKActions(t, f, c)
	if s.FKNamed(f.Name) {
		return
	}
	tb.FKs = append(tb.FKs, f)
}

// pgColInUse: a key, foreign key, policy, predicate or view needs the column.
func pgColInUse(s *Schema, tb *Table, name string) bool {
	for _, o := range s.Tables {
		for _, f := range o.FKs {
			if o == tb && f.Col == name || f.Ref == tb.ID() && f.RefCol == name {
				return true
			}
		}
	}
	for _, ix := range tb.Idx {
		if ix.Has(name) || contains(tmplCols(ix.Where), name) {
			return true
		}
	}
	for _, p := range tb.Policies {
		if contains(tmplCols(p.Using+p.Check), name) {
			return true
		}
	}
	for _, v := range s.Views {
		if contains(v.Uses, tb.ID()+"."+name) {
			return true
		}
	}
	return false
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func pgFKActions(t *engine.T, f *FK, c *Col) {
	acts := []string{"", "", "NO ACTION", "CASCADE", "RESTRICT", "SET NULL"}
	f.OnDelete, f.OnUpdate = engine.Pick(t, acts), engine.Pick(t, acts)
}

func pgAddPolicy(t *engine.T, tb *Table) {
	n := freshName(t, []string{"p_read", "p_write", "owner_only"}, []string{"My Policy", "order"}, 10, func(n string) bool {
		for _, p := range tb.Policies {
			if p.Name == n {
				return true
			}
		}
		return false
	})
	p := &Policy{Name: n}
	pgPolicyBody(t, tb, p)
	tb.Policies = append(tb.Policies, p)
}

func pgPolicyBody(t *engine.T, tb *Table, p *Policy) {
	p.Permissive = engine.Pick(t, []string{"PERMISSIVE", "PERMISSIVE", "RESTRICTIVE"})
	p.Cmd = engine.Pick(t, []string{"ALL", "SELECT", "INSERT", "UPDATE", "DELETE"})
	p.Roles = nil
	for i := t.Range(1, 2); i > 0; i-- {
		r := engine.Pick(t, []string{"public", "app_user", "readonly", "postgres"})
		if !contains(p.Roles, r) {
			p.Roles = append(p.Roles, r)
		}
	}
	if contains(p.Roles, "public") {
		p.Roles = []string{"public"}
	}
	p.Using, p.Check = "", ""
	if p.Cmd != "INSERT" {
		p.Using = pgCond(t, tb.Cols, true)
	}
	if p.Cmd == "INSERT" || (p.Cmd == "ALL" || p.Cmd == "UPDATE") && t.Bool() {
		p.Check = pgCond(t, tb.Cols, true)
	}
}

// pgView: Body is the select list, columns as {table.column}; Where likewise.
func pgView(t *engine.T, s *Schema, name string) *View {
	if len(s.Tables) == 0 {
		return nil
	}
	tb := engine.Pick(t, s.Tables)
	v := &View{Schema: engine.Pick(t, pgSchemas), Name: name, Table: tb.ID()}
	if s.takenID(v.Schema, v.Name) {
		return nil
	}
	for _, c := range tb.Cols {
		if t.Chance(60) {
			v.Cols = append(v.Cols, c.Name)
		}
	}
	if len(v.Cols) == 0 {
		v.Cols = []string{tb.Cols[0].Name}
	}
	pgViewWhere(t, s, v)
	return v
}

func pgViewWhere(t *engine.T, s *Schema, v *View) {
	v.Where = ""
	if tb := s.TableID(v.Table); tb != nil && t.Chance(50) {
		v.Where = pgCond(t, tb.Cols, true)
	}
}

// PgSchema generates a schema.
func PgSchema(t *engine.T, cfg PgCfg, flavor string) *Schema {
	s := &Schema{DB: "simdb", Flavor: flavor}
	max := cfg.MaxTab
	if max == 0 {
		max = 4
	}
	for i := t.Range(1, max); i > 0; i-- {
		s.Tables = append(s.Tables, pgTable(t, cfg, s))
	}
	for i := t.N(3); i > 0; i-- {
		if v := pgView(t, s, engine.Pick(t, viewNames)); v != nil {
			s.Views = append(s.Views, v)
		}
	}
	PgRepair(s)
	return s
}

// PgRepair makes a schema acceptable to the server.
func PgRepair(s *Schema) {
	seen := map[string]bool{}
	for ti, tb := range s.Tables {
		if len(tb.Cols) == 0 {
			tb.Cols = append(tb.Cols, &Col{Name: "id", Type: "integer", NotNull: true})
		}
		has := func(tmpl string) bool {
			for _, n := range tmplCols(tmpl) {
				if tb.Col(n) == nil {
					return false
				}
			}
			return true
		}
		for _, c := range tb.Cols {
			if !pgInt(c) {
				c.Check, c.Identity = "", ""
			}
			if c.Check == "" {
				c.NoInh = false
			}
			if c.Identity != "" || pgSerial(c) {
				c.NotNull, c.Def = true, nil
			}
			if c.Def != nil {
				ok := false
				switch c.Def.Kind {
				case "num":
					ok = pgNum(c)
				case "str":
					ok = pgStr(c) || c.Array && c.Def.S == "{}" || (c.Type == "json" || c.Type == "jsonb") && c.Def.S != "" && strings.ContainsAny(c.Def.S[:1], "{[") || pgTime(c) && strings.HasPrefix(c.Def.S, "20") || pgTime(c) && strings.HasPrefix(c.Def.S, "19") || strings.HasPrefix(c.Type, "time ") && strings.HasPrefix(c.Def.S, "10:")
					if c.Type == "character" && len(c.Def.S) > 1 && len(c.Args) > 0 && c.Args[0] == "1" || c.Type == "date" && len(c.Def.S) != 10 || strings.HasPrefix(c.Type, "timestamp") && len(c.Def.S) < 12 {
						ok = false
					}
				case "bool":
					ok = c.Type == "boolean"
				case "func":
					ok = pgTime(c) && (c.Def.S != "CURRENT_DATE") == (c.Type != "date")
				}
				if c.Array && c.Def.Kind != "str" || !ok {
					c.Def = nil
				}
			}
		}
		var keep []*Index
		for _, ix := range tb.Idx {
			ok := len(ix.Cols) > 0
			names := map[string]bool{}
			for _, c := range ix.Cols {
				k := tb.Col(c.Name)
				if k == nil || names[c.Name] || k.Type == "json" || ix.Method == "gin" && k.Type != "jsonb" && !k.Array {
					ok = false
					break
				}
				names[c.Name] = true
			}
			if ok && !has(ix.Where) {
				ok = false
			}
			if ok && ix.Con {
				if pk := tb.PK(); pk != nil && len(pk.Cols) == 1 && pk.Has(ix.Cols[0].Name) {
					ok = false
				}
			}
			if ok && !pgBool(tb, ix.Where) {
				ok = false
			}
			if ok {
				keep = append(keep, ix)
			}
		}
		tb.Idx = keep
		for _, con := range keep { // one way to make a column unique
			for _, ix := range keep {
				if con.Con && !ix.Con && ix.Kind == "unique" && ix.Where == "" && len(ix.Cols) == 1 && ix.Cols[0].Name == con.Cols[0].Name {
					if ix.pin && !con.pin {
						con.Cols = nil
					} else {
						ix.Kind = "index"
					}
				}
				if len(con.Cols) == 0 {
					tb.dropIdx(con)
					break
				}
			}
		}
		if pk := tb.PK(); pk != nil {
			for _, x := range pk.Cols {
				tb.Col(x.Name).NotNull = true
			}
		}
		var fks []*FK
		for _, f := range tb.FKs {
			var ref *Table
			for _, o := range s.Tables[:ti+1] {
				if o.ID() == f.Ref {
					ref = o
				}
			}
			c := tb.Col(f.Col)
			if ref == nil || c == nil || seen[f.Name] {
				continue
			}
			var rc *Col
			for _, x := range uniqueCols(ref) {
				if x.Name == f.RefCol {
					rc = x
				}
			}
			if rc == nil || rc == c || rc.Array || c.Array {
				continue
			}
			base := strings.NewReplacer("smallserial", "smallint", "bigserial", "bigint", "serial", "integer").Replace(rc.Type)
			if base != c.Type && !(pgInt(c) && (base == "integer" || base == "bigint" || base == "smallint")) {
				continue
			}
			if ref == tb && (tb.PK() == nil || !tb.PK().Has(f.RefCol)) {
				continue
			}
			dup := false
			for _, o := range fks {
				dup = dup || o.Col == f.Col
			}
			if dup {
				continue
			}
			seen[f.Name] = true
			fks = append(fks, f)
		}
		tb.FKs = fks
		var ps []*Policy
		for _, p := range tb.Policies {
			if has(p.Using) && has(p.Check) && pgBool(tb, p.Using) && pgBool(tb, p.Check) {
				ps = append(ps, p)
			}
		}
		tb.Policies = ps
	}
	var vs []*View
	for _, v := range s.Views {
		tb := s.TableID(v.Table)
		if tb == nil || s.TableID(v.ID()) != nil {
			continue
		}
		var cs []string
		for _, c := range v.Cols {
			if tb.Col(c) != nil {
				cs = append(cs, c)
			}
		}
		v.Cols = cs
		if len(cs) == 0 {
			continue
		}
		for _, n := range tmplCols(v.Where) {
			if tb.Col(n) == nil {
				v.Where = ""
				break
			}
		}
		if !pgBool(tb, v.Where) {
			v.Where = ""
		}
		v.Uses = nil
		for _, c := range append(append([]string(nil), cs...), tmplCols(v.Where)...) {
			v.Uses = append(v.Uses, tb.ID()+"."+c)
		}
		vs = append(vs, v)
	}
	s.Views = vs
}

var reAtom = regexp.MustCompile(`\{([^}]*)\}( (?:[<>=]+ (?:\d+|true)|IS NULL|IS NOT NULL))?`)

// pgBool: the comparisons of a condition fit the types of the columns.
func pgBool(tb *Table, tmpl string) bool {
	for _, m := range reAtom.FindAllStringSubmatch(tmpl, -1) {
		c := tb.Col(m[1])
		switch {
		case c == nil:
			return false
		case m[2] == "" || strings.HasSuffix(m[2], "true"):
			if c.Type != "boolean" || c.Array {
				return false
			}
		case strings.HasPrefix(m[2], " IS"):
		default:
			if !pgInt(c) {
				return false
			}
		}
	}
	return true
}

// PgMutate derives the next desired schema.
func PgMutate(t *engine.T, cfg PgCfg, cur *Schema, steps int) *Schema {
	s := cur.Clone()
	for i := 0; i < steps; i++ {
		if len(s.Tables) == 0 {
			s.Tables = append(s.Tables, pgTable(t, cfg, s))
			continue
		}
		k := t.N(100)
		tb := engine.Pick(t, s.Tables)
		c := engine.Pick(t, tb.Cols)
		switch {
		case k < 6:
			if len(s.Tables) < 6 {
				s.Tables = append(s.Tables, pgTable(t, cfg, s))
			}
		case k < 12:
			j := t.N(len(s.Tables))
			s.Tables = append(append([]*Table(nil), s.Tables[:j]...), s.Tables[j+1:]...)
		case k < 23:
			n := pgCol(t, freshName(t, colNames, pgOddColNames, cfg.Odd, tb.takenCol))
			p := t.N(len(tb.Cols) + 1)
			tb.Cols = append(tb.Cols, nil)
			copy(tb.Cols[p+1:], tb.Cols[p:])
			tb.Cols[p] = n
		case k < 32:
			if len(tb.Cols) > 1 {
				tb.dropCol(c.Name)
			}
		case k < 41: // type
			if pgSerial(c) {
				break
			}
			d, ch, ni, id := c.Def, c.Check, c.NoInh, c.Identity
			switch {
			case c.Type == "character varying" && len(c.Args) > 0 && t.Bool():
				c.Args = []string{engine.Pick(t, []string{"20", "40", "60", "255"})}
			case pgInt(c) && t.Bool():
				c.Type = engine.Pick(t, []string{"smallint", "integer", "bigint"})
			case strings.HasPrefix(c.Type, "timestamp") && t.Bool():
				c.Args = nil
				c.Type = engine.Pick(t, []string{"timestamp with time zone", "timestamp without time zone"})
				d = nil
			case c.Type == "numeric" && t.Bool():
				c.Args = []string{engine.Pick(t, []string{"10", "12", "14"}), engine.Pick(t, []string{"2", "3", "4"})}
			case pgStr(c) && t.Bool():
				c.Type, c.Args = "text", nil
			default:
				pgType(t, c)
				if pgSerial(c) {
					c.Type = "integer"
				}
				d = nil
			}
			c.Def = d
			if pgInt(c) {
				c.Check, c.NoInh, c.Identity = ch, ni, id
			}
		case k < 47:
			c.NotNull = !c.NotNull
		case k < 54:
			if c.Def != nil && t.Chance(40) {
				c.Def = nil
			} else {
				pgDefault(t, c)
			}
		case k < 59:
			if c.Check != "" && t.Chance(50) {
				if t.Chance(25) {
					c.NoInh = !c.NoInh
				} else {
					c.Check = ""
				}
			} else {
				pgCheck(t, c)
			}
		case k < 63:
			if pgInt(c) {
				if c.Identity != "" && t.Bool() {
					c.Identity = ""
				} else {
					c.Identity = engine.Pick(t, []string{"ALWAYS", "BY DEFAULT"})
				}
			}
		case k < 70:
			pgAddIndex(t, tb)
		case k < 75:
			if len(tb.Idx) > 0 {
				tb.dropIdx(engine.Pick(t, tb.Idx))
			}
		case k < 81:
			if len(tb.Idx) == 0 {
				if tb.PK() == nil && pgKeyable(c) {
					tb.Idx = append(tb.Idx, &Index{Kind: "primary", Cols: []IdxCol{{Name: c.Name}}})
				}
				break
			}
			ix := engine.Pick(t, tb.Idx)
			switch {
			case ix.Con:
			case ix.Kind == "primary" || t.Chance(40):
				if cols := pgIdxCols(t, tb, "btree"); len(cols) > 0 && ix.Method != "gin" && ix.Method != "hash" {
					if ix.Kind == "primary" {
						for i := range cols {
							cols[i].Desc = false
						}
					}
					ix.Cols = cols
				}
			case t.Chance(40):
				if ix.Where != "" && t.Bool() {
					ix.Where = ""
				} else {
					ix.Where = pgCond(t, tb.Cols, true)
				}
			case ix.Kind == "index" && ix.Method == "btree":
				ix.Kind = "unique"
			default:
				ix.Kind = "index"
			}
		case k < 85:
			pgAddFK(t, s, tb)
		case k < 89:
			if len(tb.FKs) > 0 {
				f := engine.Pick(t, tb.FKs)
				if t.Bool() {
					tb.dropFK(f)
				} else {
					pgFKActions(t, f, c)
				}
			}
		case k < 94:
			switch {
			case len(tb.Policies) > 0 && t.Chance(30):
				j := t.N(len(tb.Policies))
				tb.Policies = append(append([]*Policy(nil), tb.Policies[:j]...), tb.Policies[j+1:]...)
			case len(tb.Policies) > 0 && t.Chance(50):
				pgPolicyBody(t, tb, engine.Pick(t, tb.Policies))
			default:
				pgAddPolicy(t, tb)
			}
		default:
			switch {
			case len(s.Views) > 0 && t.Chance(30):
				j := t.N(len(s.Views))
				s.Views = append(append([]*View(nil), s.Views[:j]...), s.Views[j+1:]...)
			case len(s.Views) > 0 && t.Chance(55):
				v := engine.Pick(t, s.Views)
				if vt := s.TableID(v.Table); vt != nil && t.Bool() {
					for _, x := range vt.Cols {
						if !contains(v.Cols, x.Name) && t.Bool() {
							v.Cols = append(v.Cols, x.Name)
						}
					}
				}
				pgViewWhere(t, s, v)
			default:
				if v := pgView(t, s, engine.Pick(t, viewNames)); v != nil {
					s.Views = append(s.Views, v)
				}
			}
		}
	}
	PgRepair(s)
	for i := 0; i < 8; i++ {
		before := Dump(s)
		PgRestrict(cur, s)
		PgRepair(s)
		if Dump(s) == before {
			break
		}
	}
	if cur != nil {
		pgDropRiskyFKs(cur, s)
	}
	return s
}

// pgDropRiskyFKs: a foreign key may take any key of the column, also one that
// is dropped by the plan.
func pgDropRiskyFKs(cur, des *Schema) {
	for _, tb := range des.Tables {
		for _, f := range append([]*FK(nil), tb.FKs...) {
			old, ref := cur.TableID(f.Ref), des.TableID(f.Ref)
			if old == nil || ref == nil {
				continue
			}
			for _, ix := range old.Idx {
				if len(ix.Cols) != 1 || ix.Cols[0].Name != f.RefCol || ix.Kind != "primary" && ix.Kind != "unique" || ix.Where != "" {
					continue
				}
				n := ref.Index(ix.Name)
				if ix.Kind == "primary" {
					n = ref.PK()
				}
				if n == nil || n.Kind != ix.Kind || n.Con != ix.Con || len(n.Cols) != 1 || n.Cols[0].Name != f.RefCol || n.Where != "" {
					tb.dropFK(f)
					break
				}
			}
		}
	}
}

// pgConv: ALTER COLUMN TYPE works without USING.
func pgConv(a, b *Col) bool {
	if a.Array != b.Array || pgSerial(a) || pgSerial(b) {
		return false
	}
	if a.Array || a.Type == b.Type {
		return a.Type == b.Type
	}
	j := func(c *Col) bool { return c.Type == "json" || c.Type == "jsonb" }
	return pgNum(a) && pgNum(b) || pgStr(b) && !j(a) || pgTime(a) && pgTime(b) || j(a) && j(b)
}

// PgRestrict removes the changes that are outside the supported subset.
func PgRestrict(cur, des *Schema) {
	for _, tb := range des.Tables {
		old := cur.TableID(tb.ID())
		if old == nil {
			continue
		}
		for _, ix := range tb.Idx {
			ix.pin = false
		}
		frozen := map[string]bool{} // columns that keep their type
		needed := map[string]bool{} // columns that cannot go
		for _, o := range cur.Tables {
			for _, f := range o.FKs {
				if o == old {
					frozen[f.Col] = true
				}
				if f.Ref == old.ID() {
					frozen[f.RefCol] = true
				}
			}
		}
		for _, ix := range append(append([]*Index(nil), old.Idx...), tb.Idx...) {
			for _, n := range tmplCols(ix.Where) {
				frozen[n] = true
			}
			if ix.Method != "btree" && ix.Method != "" {
				for _, c := range ix.Cols {
					frozen[c.Name] = true
				}
			}
		}
		for _, p := range old.Policies {
			for _, n := range tmplCols(p.Using + p.Check) {
				frozen[n] = true
			}
		}
		for _, c := range append(append([]*Col(nil), old.Cols...), tb.Cols...) {
			if c.Check != "" {
				frozen[c.Name] = true
			}
		}
		for _, v := range cur.Views {
			if v.Table != old.ID() {
				continue
			}
			for _, n := range append(append([]string(nil), v.Cols...), tmplCols(v.Where)...) {
				frozen[n] = true
			}
			if des.viewID(v.ID()) != nil {
				for _, n := range v.Cols {
					needed[n] = true
				}
			}
		}
		for n := range needed {
			if tb.Col(n) == nil && old.Col(n) != nil {
				tb.Cols = append(tb.Cols, old.Col(n).Clone())
			}
		}
		for _, c := range tb.Cols {
			oc := old.Col(c.Name)
			if oc == nil {
				continue
			}
			same := c.Type == oc.Type && c.Array == oc.Array && strings.Join(c.Args, ",") == strings.Join(oc.Args, ",")
			if !same {
				ok := pgConv(oc, c) && !frozen[c.Name]
				if oc.Def != nil && !(oc.Def.Kind == "num" && pgNum(c) || oc.Def.Kind == "str" && pgStr(c) && pgStr(oc)) && oc.Type != c.Type {
					ok = false
				}
				if len(oc.Args) > 0 && len(c.Args) == 0 && oc.Type == c.Type {
					ok = false // explicit -> implicit length
				}
				if oc.Type == c.Type && len(c.Args) > 0 && len(oc.Args) == 0 {
					ok = false
				}
				if !pgKeyable(c) {
					for _, ix := range append(append([]*Index(nil), old.Idx...), tb.Idx...) {
						ok = ok && !ix.Has(c.Name)
					}
				}
				if !ok {
					c.Type, c.Array, c.Args = oc.Type, oc.Array, append([]string(nil), oc.Args...)
					if oc.Def != nil || c.Def != nil {
						d := oc.Def
						if d != nil {
							x := *d
							d = &x
						}
						c.Def = d
					}
					if c.Identity == "" && oc.Identity != "" && !pgInt(c) {
						c.Identity = oc.Identity
					}
				}
			}
		}
		// keys foreign keys refer to
		for _, ix := range old.Idx {
			used, stays := false, false
			for _, o := range cur.Tables {
				for _, f := range o.FKs {
					if f.Ref == old.ID() && len(ix.Cols) == 1 && ix.Cols[0].Name == f.RefCol && (ix.Kind == "primary" || ix.Kind == "unique") && ix.Where == "" {
						used = true
						if n := des.TableID(o.ID()); n != nil && n.FK(f.Name) != nil {
							stays = true
						}
					}
				}
			}
			if !used {
				continue
			}
			var n *Index
			if ix.Kind == "primary" {
				n = tb.PK()
			} else {
				n = tb.Index(ix.Name)
			}
			if n != nil || stays || ix.Kind == "primary" {
				if tb.Col(ix.Cols[0].Name) == nil {
					tb.Cols = append(tb.Cols, old.Col(ix.Cols[0].Name).Clone())
				}
				y := *ix
				y.Cols, y.pin = append([]IdxCol(nil), ix.Cols...), true
				if n != nil {
					*n = y
				} else {
					tb.Idx = append(tb.Idx, &y)
				}
			}
		}
	}
	for _, v := range append([]*View(nil), des.Views...) {
		ov := cur.viewID(v.ID())
		if ov == nil {
			if cur.TableID(v.ID()) != nil { // the name changes its kind
				des.dropView(v)
			}
			continue
		}
		if ov.Table != v.Table {
			des.dropView(v)
			continue
		}
		ok := len(v.Cols) >= len(ov.Cols)
		for i := range ov.Cols {
			ok = ok && v.Cols[i] == ov.Cols[i]
		}
		if !ok {
			v.Cols = append([]string(nil), ov.Cols...)
		}
	}
	var ts []*Table
	for _, t := range des.Tables {
		if cur.viewID(t.ID()) == nil {
			ts = append(ts, t)
		}
	}
	des.Tables = ts
}

func (s *Schema) dropView(v *View) {
	for i, x := range s.Views {
		if x == v {
			s.Views = append(append([]*View(nil), s.Views[:i]...), s.Views[i+1:]...)
			return
		}
	}
}

// ---- spelling ----

func (st *Style) pgq(n string) string {
	if !plainLower(n) || st.t.Chance(st.Quote) {
		return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
	}
	// PostgreSQL folds the names without quotes
	switch st.t.N(12) {
	case 10:
		return strings.ToUpper(n)
	case 11:
		return strings.ToUpper(n[:1]) + n[1:]
	}
	return n
}

// pgTab writes the name of a table.
func (st *Style) pgTab(schema, n string) string {
	if schema == "public" && st.t.Bool() {
		return st.pgq(n)
	}
	return st.pgq(schema) + "." + st.pgq(n)
}

func (st *Style) pgID(id string) string {
	i := strings.IndexByte(id, '.')
	return st.pgTab(id[:i], id[i+1:])
}

// PgStr writes a string literal.
func PgStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (st *Style) pgExpr(tmpl string, q func(string) string) string {
	out := ""
	last := 0
	for _, m := range reTmpl.FindAllStringSubmatchIndex(tmpl, -1) {
		out += st.pgWords(tmpl[last:m[0]]) + q(tmpl[m[2]:m[3]])
		last = m[1]
	}
	return out + st.pgWords(tmpl[last:])
}

func (st *Style) pgWords(s string) string {
	if st.Upper == 0 || st.Upper == 2 && st.t.Bool() {
		return strings.ToLower(s)
	}
	return s
}

var pgAliases = map[string][]string{
	"integer":                     {"int"},
	"character varying":           {"varchar"},
	"character":                   {"char"},
	"boolean":                     {"bool"},
	"numeric":                     {"decimal"},
	"timestamp without time zone": {"timestamp"},
	"time without time zone":      {"time"},
}

func (st *Style) pgTypeText(c *Col) string {
	ty := c.Type
	if a := pgAliases[ty]; a != nil && (strings.HasPrefix(ty, "time") && !c.Array || st.Aliases && st.t.Bool()) {
		ty = engine.Pick(st.t, append([]string{ty}, a...))
	}
	ty = st.kw(ty)
	if len(c.Args) > 0 {
		a := "(" + strings.Join(c.Args, engine.Pick(st.t, []string{",", ", "})) + ")"
		if i := strings.Index(strings.ToLower(ty), " with"); i >= 0 {
			ty = ty[:i] + a + ty[i:]
		} else {
			ty += a
		}
	}
	if c.Array {
		ty += "[]"
	}
	return ty
}

func (st *Style) pgDef(c *Col) string {
	switch c.Def.Kind {
	case "str":
		x := PgStr(c.Def.S)
		if st.Aliases && pgStr(c) && st.t.Chance(30) {
			x += "::" + map[string]string{"character": "bpchar"}[c.Type] // other names of it aren't parsed
			if c.Type != "character" {
				x += c.Type
			}
		}
		return x
	case "func":
		if strings.HasSuffix(c.Def.S, "()") {
			return st.kw(c.Def.S)
		}
		return st.kw(c.Def.S)
	}
	return st.kw(c.Def.S)
}

func (st *Style) pgColDef(tb *Table, c *Col, inlinePK, inlineUnique bool) string {
	p := []string{st.pgq(c.Name), st.pgTypeText(c)}
	implied := pgSerial(c) || c.Identity != "" || inlinePK || tb.PK() != nil && tb.PK().Has(c.Name)
	var attrs []string
	switch {
	case c.NotNull && !(implied && st.t.Bool()):
		attrs = append(attrs, st.kw("not null"))
	case !c.NotNull && st.ExplNull && st.t.Bool():
		attrs = append(attrs, st.kw("null"))
	}
	switch {
	case c.Def != nil:
		attrs = append(attrs, st.kw("default")+" "+st.pgDef(c))
	case !c.NotNull && st.ExplNull && st.t.Chance(30):
		attrs = append(attrs, st.kw("default null"))
	}
	if inlineUnique {
		attrs = append(attrs, st.kw("unique"))
	}
	if inlinePK {
		attrs = append(attrs, st.kw("primary key"))
	}
	if c.Identity != "" {
		attrs = append(attrs, st.kw("generated "+c.Identity+" as identity"))
	}
	if c.Check != "" {
		x := st.kw("check") + " (" + st.pgExpr(c.Check, func(n string) string { return n }) + ")"
		if c.NoInh {
			x += " " + st.kw("no inherit")
		}
		attrs = append(attrs, x)
	}
	return strings.Join(append(p, attrs...), " ")
}

func (st *Style) pgIdxCols(ix *Index) string {
	var out []string
	for _, c := range ix.Cols {
		x := st.pgq(c.Name)
		if c.Desc {
			x += " " + st.kw("desc")
		} else if st.ExplNull && ix.Kind != "primary" && ix.Method == "btree" && st.t.Chance(20) {
			x += " " + st.kw("asc")
		}
		out = append(out, x)
	}
	return "(" + strings.Join(out, engine.Pick(st.t, []string{", ", ","})) + ")"
}

func (st *Style) pgFKText(f *FK) string {
	x := st.kw("constraint") + " " + st.pgq(f.Name) + " " + st.kw("foreign key") + " (" + st.pgq(f.Col) + ") " + st.kw("references") + " " + st.pgID(f.Ref) + " (" + st.pgq(f.RefCol) + ")"
	if f.OnDelete != "" {
		x += " " + st.kw("on delete") + " " + st.kw(f.OnDelete)
	}
	if f.OnUpdate != "" {
		x += " " + st.kw("on update") + " " + st.kw(f.OnUpdate)
	}
	return x
}

// PgRender spells a schema.
func PgRender(st *Style, s *Schema) []Statement {
	var out, late []Statement
	tables := append([]*Table(nil), s.Tables...)
	if st.Shuffle {
		tables = shuffleTopoID(st.t, tables)
	}
	refd := map[string]bool{}
	for _, t := range s.Tables {
		for _, f := range t.FKs {
			refd[f.Ref] = true
		}
	}
	for _, tb := range tables {
		inlinePK := ""
		inlineU := map[string]bool{}
		var body, keys []string
		var sep []Statement
		for _, ix := range tb.Idx {
			switch {
			case ix.Kind == "primary":
				if len(ix.Cols) == 1 && st.t.Chance(st.Inline) {
					inlinePK = ix.Cols[0].Name
				} else {
					keys = append(keys, st.kw("primary key")+" "+st.pgIdxCols(ix))
				}
			case ix.Con:
				inlineU[ix.Cols[0].Name] = true
			default:
				q := st.kw("create") + " "
				if ix.Kind == "unique" {
					q += st.kw("unique") + " "
				}
				q += st.kw("index") + " " + st.pgq(ix.Name) + " " + st.kw("on") + " " + st.pgTab(tb.Schema, tb.Name) + " "
				if ix.Method != "btree" || st.t.Chance(30) {
					q += st.kw("using") + " " + ix.Method + " "
				}
				q += st.pgIdxCols(ix)
				if ix.Where != "" {
					q += " " + st.kw("where") + " " + st.pgExpr(ix.Where, st.pgq)
				}
				sep = append(sep, Statement{SQL: q, Kind: "index", Table: tb.ID(), Name: ix.Name})
			}
		}
		for _, f := range tb.FKs {
			if st.t.Chance(st.Separate) {
				// the parser demands ONLY
				q := st.kw("alter table only") + " "
				q += st.pgTab(tb.Schema, tb.Name) + " " + st.kw("add") + " " + st.pgFKText(f)
				sep = append(sep, Statement{SQL: q, Kind: "fk", Table: tb.ID(), Name: f.Name})
			} else {
				keys = append(keys, st.pgFKText(f))
			}
		}
		for _, p := range tb.Policies {
			q := st.kw("create policy") + " " + st.pgq(p.Name) + " " + st.kw("on") + " " + st.pgTab(tb.Schema, tb.Name)
			if p.Permissive != "PERMISSIVE" || st.t.Bool() {
				q += " " + st.kw("as "+p.Permissive)
			}
			if p.Cmd != "ALL" || st.t.Bool() {
				q += " " + st.kw("for "+p.Cmd)
			}
			// the parser demands TO
			q += " " + st.kw("to") + " " + strings.Join(p.Roles, engine.Pick(st.t, []string{", ", ","}))
			par := func(x string) string {
				x = st.pgExpr(x, st.pgq)
				if !strings.HasPrefix(x, "(") || st.t.Bool() {
					x = "(" + x + ")"
				}
				return x
			}
			if p.Using != "" {
				q += " " + st.kw("using") + " " + par(p.Using)
			}
			if p.Check != "" {
				q += " " + st.kw("with check") + " " + par(p.Check)
			}
			sep = append(sep, Statement{SQL: q, Kind: "policy", Table: tb.ID(), Name: p.Name})
		}
		for _, c := range tb.Cols {
			body = append(body, st.pgColDef(tb, c, c.Name == inlinePK, inlineU[c.Name]))
		}
		if st.Shuffle {
			engine.Shuffle(st.t, keys)
		}
		body = append(body, keys...)
		q := st.kw("create table") + " " + st.pgTab(tb.Schema, tb.Name) + " " + st.wrap(body)
		out = append(out, Statement{SQL: q, Kind: "table", Table: tb.ID(), Name: tb.Name})
		if st.Shuffle && !refd[tb.ID()] && st.t.Bool() {
			late = append(late, sep...)
		} else {
			out = append(out, sep...)
		}
	}
	out = append(out, late...)
	for _, v := range s.Views {
		i := strings.IndexByte(v.Table, '.')
		sch, tn := v.Table[:i], v.Table[i+1:]
		q := func(n string) string { // as the server prints names
			if plainLower(n) && n != "name" {
				return n
			}
			if n == "name" {
				return n
			}
			return `"` + n + `"`
		}
		col := func(n string) string {
			if s.Flavor == "16" {
				return q(n)
			}
			return q(tn) + "." + q(n)
		}
		var cs []string
		for _, c := range v.Cols {
			cs = append(cs, col(c))
		}
		from := q(tn)
		if sch != "public" {
			from = q(sch) + "." + from
		}
		sql := st.kw("create view") + " " + st.pgTab(v.Schema, v.Name) + " " + st.kw("as") + " " + st.kw("select") + " " + strings.Join(cs, engine.Pick(st.t, []string{", ", ",", ",\n  "})) + " " + st.kw("from") + " " + from
		if v.Where != "" {
			sql += " " + st.kw("where") + " " + st.pgExpr(v.Where, col)
		}
		out = append(out, Statement{SQL: sql, Kind: "view", Name: v.Name, Table: v.Table})
	}
	return out
}

// shuffleTopoID permutes tables keeping referenced ones first.
func shuffleTopoID(t *engine.T, tables []*Table) []*Table {
	rest := append([]*Table(nil), tables...)
	var out []*Table
	done := map[string]bool{}
	for len(rest) > 0 {
		var ready []int
		for i, x := range rest {
			ok := true
			for _, f := range x.FKs {
				if f.Ref != x.ID() && !done[f.Ref] {
					ok = false
				}
			}
			if ok {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			return append(out, rest...)
		}
		i := engine.Pick(t, ready)
		out = append(out, rest[i])
		done[rest[i].ID()] = true
		rest = append(rest[:i], rest[i+1:]...)
	}
	return out
}

// "key" is left out: PostgreSQL shows it without quotes, and the parser of this
// tool takes it for a keyword.
var pgOddColNames = []string{"order", "status", "select", "desc", "from", "my-col", "with space", "table", "default", "DROP", "to DROP"}
