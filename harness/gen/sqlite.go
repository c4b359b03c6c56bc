package gen

import (
	"strings"

	"verif.local/harness/engine"
)

// ---- SQLite ----

func slName(t *engine.T, s *Schema) string {
	return freshName(t, tableNames, oddTableNames, 12, s.takenTable)
}

func slCol(t *engine.T, tb *Table, added bool) *Col {
	c := &Col{Name: freshName(t, colNames, oddColNames, 12, tb.takenCol)}
	switch t.N(9) {
	case 0, 1:
		c.Type = "integer"
	case 2, 3:
		c.Type = "text"
	case 4:
		c.Type = engine.Pick(t, []string{"real", "blob", "numeric", "int", "bigint"})
	case 5:
		c.Type, c.Args = engine.Pick(t, []string{"varchar", "char"}), []string{engine.Pick(t, []string{"10", "255"})}
	case 6:
		c.Type, c.Args = "decimal", []string{"10", "2"}
	case 7:
		c.Type = engine.Pick(t, []string{"date", "timestamp", "datetime", "time"})
	case 8:
		c.Type = "boolean"
	}
	if t.Chance(45) {
		switch c.Type {
		case "integer", "int", "bigint", "numeric":
			c.Def = &Def{"num", engine.Pick(t, []string{"0", "1", "-1", "12345678901", "-20"})}
		case "real", "decimal":
			c.Def = &Def{"num", engine.Pick(t, []string{"1.5", "0.25", "-2.5", "3"})}
		case "text", "varchar", "char":
			c.Def = &Def{"str", engine.Pick(t, []string{"", "a", "it's", "back\\slash", "two words", "A,b(c)", "null", "\"dq\"", "`bq`", "DROP TABLE x", "é", "100%"})}
		case "boolean":
			c.Def = &Def{"word", engine.Pick(t, []string{"true", "false"})}
		case "timestamp", "datetime":
			if !added {
				c.Def = &Def{"word", "CURRENT_TIMESTAMP"}
			} else {
				c.Def = &Def{"str", "2020-01-01 00:00:00"}
			}
		case "date":
			c.Def = &Def{"str", "2020-01-01"}
		}
	}
	c.NotNull = t.Chance(40) && (!added || c.Def != nil)
	if (c.Type == "text" || c.Type == "varchar") && t.Chance(20) {
		c.Collate = engine.Pick(t, []string{"nocase", "rtrim"})
	}
	if plain(c.Name) && (c.Type == "integer" || c.Type == "int") && t.Chance(15) {
		c.Check = "{" + c.Name + "} " + engine.Pick(t, []string{"> -100", "< 99999999999", "!= 55"})
	} else if plain(c.Name) && c.Type == "text" && t.Chance(12) {
		c.Check = "{" + c.Name + "} != 'it''s \\ x'"
	}
	return c
}

func slTable(t *engine.T, s *Schema) *Table {
	tb := &Table{Name: slName(t, s)}
	for i := t.Range(1, 6); i > 0; i-- {
		tb.Cols = append(tb.Cols, slCol(t, tb, false))
	}
	c := engine.Pick(t, tb.Cols)
	switch t.N(5) {
	case 0, 1:
		id := tb.Cols[0]
		nm := id.Name
		*id = Col{Name: nm, Type: "integer", NotNull: t.Bool()}
		tb.Idx = append(tb.Idx, &Index{Kind: "primary", Name: "inline", Cols: []IdxCol{{Name: nm}}})
		id.AutoInc = t.Chance(40)
	case 2:
		ix := &Index{Kind: "primary", Cols: []IdxCol{{Name: c.Name}}}
		if d := engine.Pick(t, tb.Cols); d != c {
			ix.Cols = append(ix.Cols, IdxCol{Name: d.Name})
		}
		tb.Idx = append(tb.Idx, ix)
		if t.Chance(30) {
			tb.Opt = "WITHOUT ROWID"
		}
	}
	for _, c := range tb.Cols {
		if tb.PK() != nil && tb.PK().Has(c.Name) {
			continue
		}
		if t.Chance(12) {
			tb.Idx = append(tb.Idx, &Index{Kind: "unique", Cols: []IdxCol{{Name: c.Name}}})
		}
	}
	if len(s.Tables) > 0 && t.Chance(25) {
		o := engine.Pick(t, s.Tables)
		c := engine.Pick(t, tb.Cols)
		tb.FKs = append(tb.FKs, &FK{Name: "fk_" + sanitize(tb.Name), Col: c.Name, Ref: o.Name, RefCol: o.Cols[0].Name, OnDelete: engine.Pick(t, []string{"", "CASCADE", "SET NULL"})})
	}
	return tb
}

// fixed columns of a SQLite table cannot be dropped.
func slFixed(tb *Table, col string) bool {
	for _, ix := range tb.Idx {
		if ix.Has(col) {
			return true
		}
	}
	for _, f := range tb.FKs {
		if f.Col == col {
			return true
		}
	}
	return false
}

func slView(t *engine.T, s *Schema, name string) *View {
	if len(s.Tables) == 0 {
		return nil
	}
	tb := engine.Pick(t, s.Tables)
	v := &View{Name: name}
	col := func(x *Table) string {
		c := engine.Pick(t, x.Cols).Name
		v.Uses = append(v.Uses, x.Name+"."+c)
		return "{" + c + "}"
	}
	v.Uses = append(v.Uses, tb.Name+"."+tb.Cols[0].Name)
	lit := func() string {
		return engine.Pick(t, []string{"1", "2", "'x'", "'X'", "'it''s'", "'a\\b'", "-3", "1.5", "NULL", "'drop table'", "''"})
	}
	from := "{" + tb.Name + "}"
	where := ""
	if t.Chance(60) {
		where = " WHERE " + col(tb) + engine.Pick(t, []string{" = ", " > ", " != ", " <= "}) + lit()
		switch t.N(6) {
		case 1:
			where += " AND " + col(tb) + " IS NOT NULL"
		case 2:
			where += " OR (" + col(tb) + " BETWEEN 1 AND 5 AND " + col(tb) + " LIKE 'a%')"
		case 3:
			where += " AND NOT " + col(tb) + " IN (1, 2, " + lit() + ")"
		}
	}
	switch t.N(8) {
	case 0, 1, 2:
		v.Body = "SELECT " + col(tb) + " FROM " + from + where
		if t.Bool() {
			v.Body = "SELECT " + col(tb) + " AS {a1}, " + col(tb) + " AS {b1} FROM " + from + where
		}
	case 3:
		v.Body = "SELECT DISTINCT " + col(tb) + " AS {x} FROM " + from + where + " ORDER BY " + col(tb) + engine.Pick(t, []string{" DESC", " ASC", ""}) + engine.Pick(t, []string{"", " LIMIT 3", " LIMIT 10 OFFSET 2"})
	case 4:
		v.Body = "SELECT COUNT(*) AS {n}, MAX(" + col(tb) + ") AS {m} FROM " + from + where + " GROUP BY " + col(tb)
	case 5:
		v.Body = "SELECT CASE WHEN " + col(tb) + " > 1 THEN 'big' ELSE " + lit() + " END AS {k}, " + col(tb) + " + 1 AS {p} FROM " + from + where
	case 6:
		o := engine.Pick(t, s.Tables)
		v.Uses = append(v.Uses, o.Name+"."+o.Cols[0].Name)
		c1, c2 := engine.Pick(t, tb.Cols).Name, engine.Pick(t, o.Cols).Name
		v.Uses = append(v.Uses, tb.Name+"."+c1, o.Name+"."+c2)
		v.Body = "SELECT {p}.{" + c1 + "} AS {l}, {q}.{" + c2 + "} AS {r} FROM " + from + " AS {p} " + engine.Pick(t, []string{"JOIN", "LEFT JOIN"}) + " {" + o.Name + "} AS {q} ON {p}.{" + c1 + "} = {q}.{" + c2 + "}"
	case 7:
		v.Body = "SELECT " + col(tb) + " AS {x} FROM " + from + where + engine.Pick(t, []string{" UNION ", " UNION ALL "}) + "SELECT " + col(tb) + " FROM " + from
	}
	return v
}

// SlSchema generates a schema of tables and views.
func SlSchema(t *engine.T, flavor string) *Schema {
	s := &Schema{Flavor: flavor}
	for i := t.Range(1, 4); i > 0; i-- {
		s.Tables = append(s.Tables, slTable(t, s))
	}
	for i := t.N(4); i > 0; i-- {
		if v := slView(t, s, freshName(t, viewNames, nil, 0, s.takenTable)); v != nil {
			s.Views = append(s.Views, v)
		}
	}
	return s
}

// SlMutate changes a schema in the ways the tool supports for SQLite.
func SlMutate(t *engine.T, cur *Schema, steps int) *Schema {
	s := cur.Clone()
	for ; steps > 0; steps-- {
		switch t.N(10) {
		case 0:
			if len(s.Tables) < 6 {
				s.Tables = append(s.Tables, slTable(t, s))
			}
		case 1:
			if len(s.Tables) > 0 {
				i := t.N(len(s.Tables))
				s.Tables = append(append([]*Table(nil), s.Tables[:i]...), s.Tables[i+1:]...)
			}
		case 2, 3, 4:
			if len(s.Tables) > 0 {
				tb := engine.Pick(t, s.Tables)
				old := cur.Table(tb.Name)
				c := slCol(t, tb, true)
				if old != nil && old.Col(c.Name) != nil {
					break // dropped and added again: not a change the tool tracks
				}
				if c.Check != "" && strings.HasSuffix(c.Check, "x'") {
					c.Check = ""
				}
				i := len(tb.Cols)
				if t.Chance(30) {
					i = t.N(i + 1)
				}
				tb.Cols = append(append(append([]*Col(nil), tb.Cols[:i]...), c), tb.Cols[i:]...)
			}
		case 5, 6:
			if len(s.Tables) > 0 {
				tb := engine.Pick(t, s.Tables)
				c := engine.Pick(t, tb.Cols)
				if !slFixed(tb, c.Name) && len(tb.Cols) > 1 {
					tb.dropCol(c.Name)
				}
			}
		case 7:
			if v := slView(t, s, freshName(t, viewNames, nil, 0, s.takenTable)); v != nil {
				s.Views = append(s.Views, v)
			}
		case 8:
			if len(s.Views) > 0 {
				i := t.N(len(s.Views))
				s.Views = append(append([]*View(nil), s.Views[:i]...), s.Views[i+1:]...)
			}
		case 9:
			if len(s.Views) > 0 {
				v := engine.Pick(t, s.Views)
				if t.Chance(35) { // a small change
					for _, r := range [][2]string{{"'x'", "'X'"}, {"'X'", "'x'"}, {" = ", " != "}, {" AND NOT ", " OR NOT "}, {"LIMIT 3", "LIMIT 4"}, {" DESC", " ASC"}, {" LEFT JOIN ", " JOIN "}, {"MAX(", "MIN("}} {
						if strings.Contains(v.Body, r[0]) {
							v.Body = strings.Replace(v.Body, r[0], r[1], 1)
							break
						}
					}
				} else if n := slView(t, s, v.Name); n != nil {
					*v = *n
				}
			}
		}
	}
	// keep what the new schema refers to; names of kept objects keep their kind
	var vs []*View
	for _, v := range s.Views {
		if cur.Table(v.Name) == nil && s.usable(v) {
			vs = append(vs, v)
		}
	}
	s.Views = vs
	var ts []*Table
	for _, tb := range s.Tables {
		ok := true
		for _, v := range cur.Views {
			ok = ok && !strings.EqualFold(v.Name, tb.Name)
		}
		for _, o := range cur.Tables { // names differing in case only are the same table to SQLite
			ok = ok && (o.Name == tb.Name || !strings.EqualFold(o.Name, tb.Name))
		}
		if ok {
			// a table of this name that exists keeps what cannot be changed
			if o := cur.Table(tb.Name); o != nil && !sameOrigin(o, tb) {
				tb = o.Clone()
			}
			ts = append(ts, tb)
		}
	}
	s.Tables = ts
	vs = nil
	for _, v := range s.Views {
		if s.usable(v) {
			vs = append(vs, v)
		}
	}
	s.Views = vs
	return s
}

// sameOrigin: the table was derived from the other one.
func sameOrigin(o, n *Table) bool {
	if o.Opt != n.Opt || len(o.Idx) != len(n.Idx) || len(o.FKs) != len(n.FKs) {
		return false
	}
	for i := range o.Idx {
		if !sameIdxCols(o.Idx[i], n.Idx[i]) || o.Idx[i].Kind != n.Idx[i].Kind || o.Idx[i].Name != n.Idx[i].Name {
			return false
		}
	}
	for i := range o.FKs {
		if *o.FKs[i] != *n.FKs[i] {
			return false
		}
	}
	for _, c := range n.Cols {
		if d := o.Col(c.Name); d != nil && (d.Type != c.Type || d.NotNull != c.NotNull || d.Collate != c.Collate || d.Check != c.Check || d.AutoInc != c.AutoInc || strings.Join(d.Args, ",") != strings.Join(c.Args, ",") || (d.Def == nil) != (c.Def == nil) || d.Def != nil && *d.Def != *c.Def) {
			return false
		}
		if o.Col(c.Name) == nil && c.NotNull && c.Def == nil {
			return false
		}
		if o.Col(c.Name) == nil && c.Def != nil && c.Def.S == "CURRENT_TIMESTAMP" {
			return false
		}
	}
	return true
}

func (s *Schema) usable(v *View) bool {
	for _, u := range v.Uses {
		i := strings.LastIndexByte(u, '.')
		tb := s.Table(u[:i])
		if tb == nil || tb.Col(u[i+1:]) == nil {
			return false
		}
	}
	return true
}

// Template renders a template: {name} is an identifier, upper-case words are keywords.
func (st *Style) Template(body string, q func(string) string) string {
	var sb strings.Builder
	for i := 0; i < len(body); {
		c := body[i]
		switch {
		case c == '{':
			j := strings.IndexByte(body[i:], '}')
			sb.WriteString(q(body[i+1 : i+j]))
			i += j + 1
		case c == '\'':
			j := i + 1
			for j < len(body) && body[j] != '\'' {
				j++
			}
			sb.WriteString(body[i : j+1])
			i = j + 1
		case c >= 'A' && c <= 'Z':
			j := i
			for j < len(body) && (body[j] >= 'A' && body[j] <= 'Z' || body[j] == '_') {
				j++
			}
			sb.WriteString(st.kw(body[i:j]))
			i = j
		default:
			sb.WriteByte(c)
			i++
		}
	}
	return sb.String()
}

func (st *Style) slq(n string) string {
	if !plain(n) || st.t.Chance(st.Quote) {
		return "`" + n + "`"
	}
	return n
}

// SlRender spells a schema.
func SlRender(st *Style, s *Schema) []Statement {
	var out []Statement
	for _, tb := range s.Tables {
		var body []string
		uniq := map[string]bool{}
		inline := ""
		var keys []string
		for _, ix := range tb.Idx {
			switch {
			case ix.Kind == "unique":
				uniq[ix.Cols[0].Name] = true
			case ix.Name == "inline":
				inline = ix.Cols[0].Name
			default:
				var cs []string
				for _, c := range ix.Cols {
					cs = append(cs, st.slq(c.Name))
				}
				keys = append(keys, st.kw("primary key")+" ("+strings.Join(cs, ", ")+")")
			}
		}
		for _, f := range tb.FKs {
			k := st.kw("constraint") + " " + st.slq(f.Name) + " " + st.kw("foreign key") + " (" + st.slq(f.Col) + ") " + st.kw("references") + " " + st.slq(f.Ref) + " (" + st.slq(f.RefCol) + ")"
			if f.OnDelete != "" {
				k += " " + st.kw("on delete") + " " + st.kw(f.OnDelete)
			}
			keys = append(keys, k)
		}
		for _, c := range tb.Cols {
			ty := st.kw(c.Type)
			if len(c.Args) > 0 {
				ty += "(" + strings.Join(c.Args, engine.Pick(st.t, []string{",", ", "})) + ")"
			}
			x := []string{st.slq(c.Name), ty}
			var attrs []string
			if c.Collate != "" {
				attrs = append(attrs, st.kw("collate")+" "+st.kw(c.Collate))
			}
			if c.NotNull {
				attrs = append(attrs, st.kw("not null"))
			} else if st.ExplNull && st.t.Bool() && inline != c.Name {
				attrs = append(attrs, st.kw("null"))
			}
			if c.Def != nil {
				v := c.Def.S
				if c.Def.Kind == "str" {
					v = "'" + strings.ReplaceAll(v, "'", "''") + "'"
				} else if c.Def.Kind == "word" {
					v = st.kw(v)
				}
				attrs = append(attrs, st.kw("default")+" "+v)
			}
			if inline == c.Name {
				k := st.kw("primary key")
				if c.AutoInc {
					k += " " + st.kw("autoincrement")
				}
				attrs = append(attrs, k)
			}
			if uniq[c.Name] {
				attrs = append(attrs, st.kw("unique"))
			}
			if c.Check != "" {
				attrs = append(attrs, st.kw("check")+" ("+st.Template(c.Check, st.slq)+")")
			}
			body = append(body, strings.Join(append(x, attrs...), " "))
		}
		body = append(body, keys...)
		q := st.kw("create table") + " " + st.slq(tb.Name) + " " + st.wrap(body)
		if tb.Opt != "" {
			q += " " + st.kw(tb.Opt)
		}
		out = append(out, Statement{SQL: q, Kind: "table", Table: tb.Name, Name: tb.Name})
	}
	for _, v := range s.Views {
		out = append(out, Statement{SQL: st.kw("create view") + " " + st.slq(v.Name) + " " + st.kw("as") + " " + st.Template(v.Body, st.slq), Kind: "view", Name: v.Name})
	}
	return out
}
