// Package gen generates schemas, changes to them, and spellings of them.
package gen

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"verif.local/harness/engine"
)

// Def is a default value as written in a desired file.
type Def struct {
	Kind string // str num bit func bool
	S    string
}

// Col is a column in a generated schema (any dialect).
type Col struct {
	Name     string
	Type     string
	Args     []string
	Unsigned bool
	Enum     []string
	Array    bool
	Charset  string
	Collate  string
	NotNull  bool
	Def      *Def
	DefName  string
	OnUpdate bool
	AutoInc  bool
	Comment  string
	Check    string
	CheckNm  string
	CheckNFR bool
	NoInh    bool
	Identity string // ALWAYS / BY DEFAULT / "1,1"
	IdentNFR bool
}

// IdxCol is a column of an index.
type IdxCol struct {
	Name string
	Len  string
	Desc bool
}

// Index is a key or index.
type Index struct {
	Name      string
	Kind      string // primary unique index fulltext
	Cols      []IdxCol
	Parser    string
	Where     string
	Included  []string
	Options   []string
	Clustered bool
	Con       bool // made by UNIQUE of its column
	Method    string
	pin       bool // kept as it is for a foreign key
}

// FK is a foreign key.
type FK struct {
	Name, Col, Ref, RefCol string
	OnDelete, OnUpdate     string
	NFR                    bool
}

// Policy is a row level security policy.
type Policy struct {
	Name, Permissive, Cmd string
	Roles                 []string
	Using, Check          string
}

// Table is a generated table.
type Table struct {
	Opt      string // table option text
	Schema   string
	Name     string
	Cols     []*Col
	Idx      []*Index
	FKs      []*FK
	Policies []*Policy
}

// View is a generated view.
type View struct {
	Schema, Name, Table string
	Cols                []string
	Where               string // column name or ""
	WhereVal            string
	Body                string   // template: {name} is an identifier, upper case words are keywords
	Uses                []string // "table.column" or "view" the body needs
}

// Trigger is a generated trigger.
type Trigger struct {
	Name, Table, Timing, Event, Body string
}

// Schema is a generated schema.
type Schema struct {
	DB       string
	Flavor   string
	Tables   []*Table
	Views    []*View
	Triggers []*Trigger
}

// Clone copies deeply.
func (s *Schema) Clone() *Schema {
	n := &Schema{DB: s.DB, Flavor: s.Flavor}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.Clone())
	}
	for _, v := range s.Views {
		c := *v
		c.Cols = append([]string(nil), v.Cols...)
		c.Uses = append([]string(nil), v.Uses...)
		n.Views = append(n.Views, &c)
	}
	for _, v := range s.Triggers {
		c := *v
		n.Triggers = append(n.Triggers, &c)
	}
	return n
}

// Clone copies deeply.
func (t *Table) Clone() *Table {
	c := &Table{Opt: t.Opt, Schema: t.Schema, Name: t.Name}
	for _, x := range t.Cols {
		c.Cols = append(c.Cols, x.Clone())
	}
	for _, x := range t.Idx {
		y := *x
		y.Cols = append([]IdxCol(nil), x.Cols...)
		y.Included = append([]string(nil), x.Included...)
		y.Options = append([]string(nil), x.Options...)
		c.Idx = append(c.Idx, &y)
	}
	for _, x := range t.FKs {
		y := *x
		c.FKs = append(c.FKs, &y)
	}
	for _, x := range t.Policies {
		y := *x
		y.Roles = append([]string(nil), x.Roles...)
		c.Policies = append(c.Policies, &y)
	}
	return c
}

// Clone copies deeply.
func (x *Col) Clone() *Col {
	y := *x
	y.Args = append([]string(nil), x.Args...)
	y.Enum = append([]string(nil), x.Enum...)
	if x.Enum == nil {
		y.Enum = nil
	}
	if x.Def != nil {
		d := *x.Def
		y.Def = &d
	}
	return &y
}

func (s *Schema) Table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}
func (t *Table) Col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}
func (t *Table) Index(name string) *Index {
	for _, c := range t.Idx {
		if strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}
func (t *Table) PK() *Index {
	for _, c := range t.Idx {
		if c.Kind == "primary" {
			return c
		}
	}
	return nil
}
func (t *Table) FK(name string) *FK {
	for _, c := range t.FKs {
		if c.Name == name {
			return c
		}
	}
	return nil
}
func (ix *Index) Has(col string) bool {
	for _, c := range ix.Cols {
		if c.Name == col {
			return true
		}
	}
	return false
}
func (t *Table) dropIdx(ix *Index) {
	for i, x := range t.Idx {
		if x == ix {
			t.Idx = append(append([]*Index(nil), t.Idx[:i]...), t.Idx[i+1:]...)
			return
		}
	}
}
func (t *Table) dropFK(ix *FK) {
	for i, x := range t.FKs {
		if x == ix {
			t.FKs = append(append([]*FK(nil), t.FKs[:i]...), t.FKs[i+1:]...)
			return
		}
	}
}
func (t *Table) dropCol(name string) {
	for i, x := range t.Cols {
		if x.Name == name {
			t.Cols = append(append([]*Col(nil), t.Cols[:i]...), t.Cols[i+1:]...)
			break
		}
	}
}

func hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}

// Names that need no quoting, and names that do.
var tableNames = []string{"users", "posts", "comments", "tags", "items", "user_roles", "Accounts", "logs2"}
var oddTableNames = []string{"order", "group", "my-table", "select", "Mixed Case", "DROP", "DROPS log"}
var colNames = []string{"id", "name", "age", "email", "created_at", "price", "flag", "note", "user_id", "parent_id", "title", "body2", "CamelCase", "qty", "state2", "code"}
var oddColNames = []string{"order", "status", "key", "desc", "from", "my-col", "with space", "table", "default", "DROP", "to DROP"}

// plain says whether the name can be written without quotes.
func plain(n string) bool {
	for _, o := range append(append([]string(nil), oddTableNames...), oddColNames...) {
		if n == o {
			return false
		}
	}
	for _, c := range n {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// ---- MySQL ----

// MyCfg tunes the generator.
type MyCfg struct {
	Odd    int // percent of odd names
	Views  bool
	Trigs  bool
	Colls  bool
	MaxTab int
}

var myStringTypes = map[string]bool{"char": true, "varchar": true, "text": true, "mediumtext": true, "enum": true}

func myType(t *engine.T, c *Col, table string) {
	c.Args, c.Unsigned, c.Enum, c.Def, c.OnUpdate, c.AutoInc = nil, false, nil, nil, false, false
	c.Charset, c.Collate = "", ""
	h := hash(table + "." + c.Name)
	switch t.N(16) {
	case 0, 1:
		c.Type = "int"
	case 2:
		c.Type = "bigint"
	case 3:
		c.Type = engine.Pick(t, []string{"smallint", "tinyint", "mediumint"})
	case 4:
		c.Type, c.Args = "tinyint", []string{"1"} // boolean
		if t.Bool() {
			c.Type, c.Args = "boolean", nil
		}
	case 5, 6:
		c.Type, c.Args = "varchar", []string{engine.Pick(t, []string{"20", "40", "255"})}
	case 7:
		c.Type, c.Args = "char", []string{engine.Pick(t, []string{"1", "8", "36"})}
	case 8:
		c.Type = engine.Pick(t, []string{"text", "mediumtext"})
	case 9:
		c.Type, c.Args = "decimal", []string{engine.Pick(t, []string{"10", "12", "20"}), fmt.Sprint(t.N(4))}
	case 10:
		c.Type = engine.Pick(t, []string{"float", "double"})
	case 11:
		c.Type = engine.Pick(t, []string{"datetime", "timestamp"})
		if h%3 == 0 {
			c.Args = []string{engine.Pick(t, []string{"3", "6"})}
		}
	case 12:
		c.Type = engine.Pick(t, []string{"date", "time"})
	case 13:
		c.Type, c.Enum = "enum", append([]string(nil), engine.Pick(t, [][]string{{"a", "b"}, {"a", "b", "c"}, {"b", "a"}, {"new", "in progress", "done"}})...)
	case 14:
		c.Type = engine.Pick(t, []string{"json", "blob"})
	case 15:
		c.Type, c.Args = "varbinary", []string{engine.Pick(t, []string{"16", "255"})}
	}
	switch c.Type {
	case "int", "bigint", "smallint", "mediumint":
		c.Unsigned = t.Chance(30)
	}
}

func myDefault(t *engine.T, c *Col) {
	c.Def = nil
	c.OnUpdate = false
	switch c.Type {
	case "int", "bigint", "smallint", "mediumint":
		c.Def = &Def{"num", engine.Pick(t, []string{"0", "1", "20", "7", "32000"})}
		if !c.Unsigned && t.Chance(30) {
			c.Def.S = "-" + engine.Pick(t, []string{"1", "20"})
		}
		if t.Chance(25) {
			c.Def.Kind = "str"
		}
	case "tinyint", "boolean":
		c.Def = &Def{"num", engine.Pick(t, []string{"0", "1"})}
	case "varchar", "char":
		vals := []string{"", "a", "b", "x"}
		if len(c.Args) > 0 && len(c.Args[0]) >= 2 {
			vals = append(vals, "n/a", "two words", "A,b(c)", "null", "it's", "back\\slash", "100%", "é", "\"dq\"", "-- x", "DROP TABLE x")
		}
		c.Def = &Def{"str", engine.Pick(t, vals)}
	case "decimal":
		if c.Args[1] == "0" {
			c.Def = &Def{"num", engine.Pick(t, []string{"0", "3", "12"})}
		} else {
			n := int(c.Args[1][0] - '0')
			c.Def = &Def{"num", engine.Pick(t, []string{"0.", "1.", "2.", "10."}) + engine.Pick(t, []string{"0", "5"}) + strings.Repeat("0", n-1)}
		}
	case "float", "double":
		c.Def = &Def{"num", engine.Pick(t, []string{"1.5", "0.25", "3.75"})}
	case "datetime", "timestamp":
		if t.Chance(70) {
			f := "CURRENT_TIMESTAMP"
			if len(c.Args) > 0 {
				f += "(" + c.Args[0] + ")"
			}
			c.Def = &Def{"func", f}
			if t.Chance(50) && len(c.Args) == 0 {
				c.OnUpdate = true
			}
		} else if len(c.Args) == 0 {
			c.Def = &Def{"str", engine.Pick(t, []string{"2020-01-01 00:00:00", "1999-12-31 23:59:59"})}
		}
	case "date":
		c.Def = &Def{"str", engine.Pick(t, []string{"2020-01-01", "1999-12-31"})}
	case "enum":
		c.Def = &Def{"str", engine.Pick(t, c.Enum)}
	}
}

func myCol(t *engine.T, cfg MyCfg, table, name string) *Col {
	c := &Col{Name: name}
	myType(t, c, table)
	c.NotNull = t.Chance(45)
	if t.Chance(40) {
		myDefault(t, c)
	}
	if cfg.Colls && myStringTypes[c.Type] && t.Chance(20) {
		myCharset(t, c)
	}
	if t.Chance(8) {
		c.Comment = engine.Pick(t, []string{"a comment", "it's", "x, y (z)"})
	}
	return c
}

// myCharset picks an explicit character set or collation that differs from
// the table's (utf8mb4 with its default collation).
func myCharset(t *engine.T, c *Col) {
	switch t.N(4) {
	case 0:
		c.Charset, c.Collate = "latin1", ""
	case 1:
		c.Charset, c.Collate = "", "utf8mb4_bin"
	case 2:
		c.Charset, c.Collate = "utf8mb4", "utf8mb4_unicode_ci"
	case 3:
		c.Charset, c.Collate = "ascii", "ascii_bin"
	}
}

func freshName(t *engine.T, pool, odd []string, oddPct int, taken func(string) bool) string {
	for i := 0; i < 12; i++ {
		p := pool
		if t.Chance(oddPct) {
			p = odd
		}
		n := engine.Pick(t, p)
		if !taken(n) {
			return n
		}
	}
	for i := 2; ; i++ {
		n := fmt.Sprintf("extra_%d", i)
		if !taken(n) {
			return n
		}
	}
}

func (s *Schema) takenTable(n string) bool {
	for _, t := range s.Tables {
		if strings.EqualFold(t.Name, n) {
			return true
		}
	}
	for _, v := range s.Views {
		if strings.EqualFold(v.Name, n) {
			return true
		}
	}
	return false
}
func (t *Table) takenCol(n string) bool {
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, n) {
			return true
		}
	}
	return false
}

func myTable(t *engine.T, cfg MyCfg, s *Schema) *Table {
	tb := &Table{Name: freshName(t, tableNames, oddTableNames, cfg.Odd, s.takenTable)}
	n := t.Range(1, 6)
	if t.Chance(75) {
		c := &Col{Name: "id", Type: engine.Pick(t, []string{"int", "bigint"}), NotNull: true, Unsigned: t.Chance(25)}
		tb.Cols = append(tb.Cols, c)
		tb.Idx = append(tb.Idx, &Index{Kind: "primary", Cols: []IdxCol{{Name: "id"}}})
		c.AutoInc = t.Chance(45)
	}
	for i := 0; i < n; i++ {
		tb.Cols = append(tb.Cols, myCol(t, cfg, tb.Name, freshName(t, colNames, oddColNames, cfg.Odd, tb.takenCol)))
	}
	for i := t.N(4); i > 0; i-- {
		myAddIndex(t, s, tb)
	}
	for i := t.N(3); i > 0; i-- {
		myAddFK(t, s, tb)
	}
	return tb
}

func myIndexable(c *Col) bool {
	return c.Type != "json" && c.Type != "blob" && c.Type != "text" && c.Type != "mediumtext"
}

func myAddIndex(t *engine.T, s *Schema, tb *Table) {
	if t.Chance(12) { // fulltext
		var cs []string
		for _, c := range tb.Cols {
			if (c.Type == "text" || c.Type == "varchar") && c.Charset == "" && c.Collate == "" {
				cs = append(cs, c.Name)
			}
		}
		if len(cs) > 0 {
			c := engine.Pick(t, cs)
			n := "ft_" + sanitize(c)
			if tb.Index(n) == nil {
				ix := &Index{Name: n, Kind: "fulltext", Cols: []IdxCol{{Name: c}}}
				if hash(n)%2 == 0 {
					ix.Parser = "ngram"
				}
				tb.Idx = append(tb.Idx, ix)
			}
		}
		return
	}
	if t.Chance(15) { // inline unique: index named like its column
		var cs []string
		for _, c := range tb.Cols {
			if myIndexable(c) && tb.Index(c.Name) == nil && c.Type != "boolean" {
				cs = append(cs, c.Name)
			}
		}
		if len(cs) > 0 {
			c := engine.Pick(t, cs)
			tb.Idx = append(tb.Idx, &Index{Name: c, Kind: "unique", Cols: []IdxCol{{Name: c}}})
		}
		return
	}
	cols := myIdxCols(t, s, tb)
	if len(cols) == 0 {
		return
	}
	kind := engine.Pick(t, []string{"index", "unique"})
	n := freshName(t, []string{"idx_a", "idx_b", "index_name", "uq1", "K3", "by_user"}, []string{"order", "my-idx"}, 6, func(n string) bool { return tb.Index(n) != nil || tb.takenCol(n) })
	tb.Idx = append(tb.Idx, &Index{Name: n, Kind: kind, Cols: cols})
}

func myIdxCols(t *engine.T, s *Schema, tb *Table) []IdxCol {
	var out []IdxCol
	perm := append([]*Col(nil), tb.Cols...)
	engine.Shuffle(t, perm)
	n := t.Range(1, 3)
	for _, c := range perm {
		if len(out) >= n {
			break
		}
		if c.Type == "json" {
			continue
		}
		x := IdxCol{Name: c.Name}
		if !myIndexable(c) {
			x.Len = "10"
		} else if (c.Type == "varchar") && hash(tb.Name+c.Name)%5 == 0 && c.Args[0] != "20" {
			x.Len = "10"
		}
		if s.Flavor == "8.0" && t.Chance(20) {
			x.Desc = true
		}
		out = append(out, x)
	}
	return out
}

func sanitize(s string) string {
	return strings.NewReplacer("-", "_", " ", "_").Replace(s)
}

// uniqueCols lists the columns of a table a foreign key may refer to.
func uniqueCols(tb *Table) []*Col {
	var out []*Col
	for _, ix := range tb.Idx {
		if (ix.Kind == "primary" || ix.Kind == "unique") && len(ix.Cols) == 1 && ix.Cols[0].Len == "" && ix.Where == "" {
			if c := tb.Col(ix.Cols[0].Name); c != nil {
				out = append(out, c)
			}
		}
	}
	return out
}

func myAddFK(t *engine.T, s *Schema, tb *Table) {
	var refs []*Table
	for _, o := range s.Tables {
		if o == tb {
			break
		}
		if len(uniqueCols(o)) > 0 {
			refs = append(refs, o)
		}
	}
	if len(uniqueCols(tb)) > 0 && t.Chance(15) {
		refs = append(refs, tb)
	}
	if len(refs) == 0 {
		return
	}
	ref := engine.Pick(t, refs)
	rc := engine.Pick(t, uniqueCols(ref))
	if rc.Charset != "" || rc.Collate != "" {
		return
	}
	// use a column not in any key or foreign key, or make one
	name := freshName(t, []string{"user_id", "parent_id", "ref_id", "owner"}, nil, 0, func(n string) bool { return false })
	c := tb.Col(name)
	if c == nil {
		c = &Col{Name: name}
		tb.Cols = append(tb.Cols, c)
	} else {
		for _, f := range tb.FKs {
			if f.Col == name || f.Ref == tb.Name && f.RefCol == name {
				return
			}
		}
		for _, o := range s.Tables { // leave columns that are part of another foreign key alone
			for _, f := range o.FKs {
				if o == tb && f.Col == name || f.Ref == tb.Name && f.RefCol == name { // one foreign key per column
					return
				}
			}
		}
		for _, ix := range tb.Idx {
			if ix.Has(name) {
				return
			}
		}
		if c == rc {
			return
		}
	}
	nn := c.NotNull
	*c = *rc.Clone()
	c.Name, c.AutoInc, c.Def, c.DefName, c.Comment, c.Identity, c.Check, c.CheckNm, c.OnUpdate, c.NotNull = name, false, nil, "", "", "", "", "", false, nn
	f := &FK{Name: "fk_" + tb.Name + "_" + name + fmt.Sprint(hash(ref.Name+rc.Name)%100), Col: name, Ref: ref.Name, RefCol: rc.Name}
	f.Name = sanitize(f.Name)
	myFKActions(t, s, f, c)
	if s.FKNamed(f.Name) {
		return
	}
	tb.FKs = append(tb.FKs, f)
	if t.Chance(30) { // explicit index serving the foreign key
		n := "ix_" + name
		if tb.Index(n) == nil {
			tb.Idx = append(tb.Idx, &Index{Name: n, Kind: "index", Cols: []IdxCol{{Name: name}}})
		}
	}
}

// FKNamed tells whether a foreign key of that name exists.
func (s *Schema) FKNamed(n string) bool {
	for _, t := range s.Tables {
		for _, f := range t.FKs {
			if strings.EqualFold(f.Name, n) {
				return true
			}
		}
	}
	return false
}

func myFKActions(t *engine.T, s *Schema, f *FK, c *Col) {
	acts := []string{"", "", "CASCADE"}
	if !c.NotNull {
		acts = append(acts, "SET NULL")
	}
	if s.Flavor == "8.0" {
		acts = append(acts, "RESTRICT")
	} else {
		acts = append(acts, "NO ACTION")
	}
	f.OnDelete = engine.Pick(t, acts)
	f.OnUpdate = engine.Pick(t, acts)
}

func myView(t *engine.T, s *Schema, name string) *View {
	if len(s.Tables) == 0 {
		return nil
	}
	tb := engine.Pick(t, s.Tables)
	v := &View{Name: name, Table: tb.Name}
	for _, c := range tb.Cols {
		if t.Chance(60) {
			v.Cols = append(v.Cols, c.Name)
		}
	}
	if len(v.Cols) == 0 {
		v.Cols = []string{tb.Cols[0].Name}
	}
	if t.Chance(40) {
		v.Where = engine.Pick(t, tb.Cols).Name
		v.WhereVal = engine.Pick(t, []string{"1", "2", "'x'"})
	}
	return v
}

func myTrigger(t *engine.T, s *Schema, name string) *Trigger {
	if len(s.Tables) == 0 {
		return nil
	}
	g := &Trigger{Name: name, Table: engine.Pick(t, s.Tables).Name}
	if !plain(g.Table) {
		return nil
	}
	g.Timing = engine.Pick(t, []string{"before", "after"})
	g.Event = engine.Pick(t, []string{"insert", "update", "delete"})
	o := engine.Pick(t, s.Tables)
	if !plain(o.Name) {
		return nil
	}
	g.Body = engine.Pick(t, []string{
		"insert into " + o.Name + "(a, b) values ('x', 1)",
		"insert into " + o.Name + "(log) values ('done')",
		"update " + o.Name + " set a = 1 where b = 2",
		"delete from " + o.Name + " where a = 3",
	})
	return g
}

var viewNames = []string{"v_users", "active_items", "report", "v_2"}
var trigNames = []string{"trg_a", "trg_b", "audit"}

// MySchema generates a schema.
func MySchema(t *engine.T, cfg MyCfg, flavor string) *Schema {
	s := &Schema{DB: "simdb", Flavor: flavor}
	max := cfg.MaxTab
	if max == 0 {
		max = 4
	}
	for i := t.Range(1, max); i > 0; i-- {
		s.Tables = append(s.Tables, myTable(t, cfg, s))
	}
	if cfg.Views {
		for i := t.N(3); i > 0; i-- {
			if v := myView(t, s, freshName(t, viewNames, nil, 0, s.takenTable)); v != nil {
				s.Views = append(s.Views, v)
			}
		}
	}
	if cfg.Trigs {
		for i := t.N(3); i > 0; i-- {
			n := engine.Pick(t, trigNames)
			if s.trig(n) == nil {
				if g := myTrigger(t, s, n); g != nil {
					s.Triggers = append(s.Triggers, g)
				}
			}
		}
	}
	MyRepair(s)
	return s
}

func (s *Schema) trig(n string) *Trigger {
	for _, g := range s.Triggers {
		if g.Name == n {
			return g
		}
	}
	return nil
}

// MyRepair makes a schema acceptable to the server.
func MyRepair(s *Schema) {
	seen := map[string]bool{}
	for ti, tb := range s.Tables {
		if len(tb.Cols) == 0 {
			tb.Cols = append(tb.Cols, &Col{Name: "id", Type: "int", NotNull: true})
		}
		var keep []*Index
		for _, ix := range tb.Idx {
			ok := len(ix.Cols) > 0
			names := map[string]bool{}
			for _, c := range ix.Cols {
				k := tb.Col(c.Name)
				if k == nil || names[c.Name] || k.Type == "json" && ix.Kind != "fulltext" {
					ok = false
					break
				}
				names[c.Name] = true
				if ix.Kind == "fulltext" {
					ok = ok && (k.Type == "text" || k.Type == "varchar")
				} else if ix.Kind == "primary" {
					ok = ok && myIndexable(k)
				} else if !myIndexable(k) && c.Len == "" {
					ok = false
				} else if myIndexable(k) && c.Len != "" && (k.Type != "varchar" || k.Args[0] == "10") {
					ok = false
				}
			}
			if ok && ix.Kind != "primary" && ix.Kind != "unique" && tb.takenCol(ix.Name) {
				ok = false // a plain key named like a column is mistaken for its inline UNIQUE
			}
			if ok && ix.Kind == "unique" {
				if c := tb.Col(ix.Name); c != nil && !(len(ix.Cols) == 1 && ix.Cols[0].Name == ix.Name && ix.Cols[0].Len == "" && !ix.Cols[0].Desc) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, ix)
			}
		}
		tb.Idx = keep
		if pk := tb.PK(); pk != nil {
			for i := range pk.Cols {
				c := tb.Col(pk.Cols[i].Name)
				c.NotNull = true
			}
		}
		auto := false
		for _, c := range tb.Cols {
			if c.AutoInc {
				ok := !auto && (c.Type == "int" || c.Type == "bigint") && c.NotNull
				if ok {
					ok = false
					for _, ix := range tb.Idx {
						if ix.Kind != "fulltext" && ix.Cols[0].Name == c.Name && !ix.Cols[0].Desc {
							ok = true
						}
					}
				}
				if ok {
					auto = true
					c.Def = nil
				} else {
					c.AutoInc = false
				}
			}
			if c.Def != nil && (c.Type == "text" || c.Type == "json" || c.Type == "blob") {
				c.Def = nil
			}
			if c.Unsigned && c.Def != nil && strings.HasPrefix(c.Def.S, "-") {
				c.Def = nil
			}
			if c.Type == "enum" && c.Def != nil {
				ok := false
				for _, e := range c.Enum {
					ok = ok || e == c.Def.S
				}
				if !ok {
					c.Def = nil
				}
			}
		}
		var fks []*FK
		for _, f := range tb.FKs {
			var ref *Table
			for _, o := range s.Tables[:ti+1] {
				if o.Name == f.Ref {
					ref = o
				}
			}
			if ref == nil || tb.Col(f.Col) == nil || seen[f.Name] {
				continue
			}
			var rc *Col
			for _, c := range uniqueCols(ref) {
				if c.Name == f.RefCol {
					rc = c
				}
			}
			c := tb.Col(f.Col)
			if rc == nil || rc == c || rc.Type != c.Type || rc.Unsigned != c.Unsigned || rc.Charset != c.Charset || rc.Collate != c.Collate || strings.Join(rc.Args, ",") != strings.Join(c.Args, ",") || !myIndexable(c) {
				continue
			}
			if c.NotNull && (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") {
				f.OnDelete, f.OnUpdate = "", ""
			}
			dup := false // one foreign key per column
			for _, o := range fks {
				dup = dup || o.Col == f.Col
			}
			if dup {
				continue
			}
			seen[f.Name] = true
			fks = append(fks, f)
		}
		tb.FKs = fks
	}
	repairViews(s)
	var tr []*Trigger
	for _, g := range s.Triggers {
		if s.Table(g.Table) != nil {
			tr = append(tr, g)
		}
	}
	s.Triggers = tr
}

func repairViews(s *Schema) {
	var vs []*View
	for _, v := range s.Views {
		tb := s.Table(v.Table)
		if tb == nil {
			continue
		}
		var cs []string
		for _, c := range v.Cols {
			if tb.Col(c) != nil {
				cs = append(cs, c)
			}
		}
		v.Cols = cs
		if len(cs) == 0 {
			continue
		}
		if v.Where != "" && tb.Col(v.Where) == nil {
			v.Where = ""
		}
		vs = append(vs, v)
	}
	s.Views = vs
}

// MyMutate derives the next desired schema from a schema. Only attributes the
// tool tracks are changed.
// myTweak changes one attribute of a column, leaving the others.
func myTweak(t *engine.T, c *Col) {
	var opts []func()
	add := func(ok bool, f func()) {
		if ok {
			opts = append(opts, f)
		}
	}
	isInt := c.Type == "int" || c.Type == "bigint" || c.Type == "smallint" || c.Type == "mediumint"
	isTime := (c.Type == "datetime" || c.Type == "timestamp") && len(c.Args) == 0
	add(true, func() { c.NotNull = !c.NotNull })
	add(isInt && (c.Def == nil || !strings.HasPrefix(c.Def.S, "-")), func() { c.Unsigned = !c.Unsigned })
	add(isTime && c.Def != nil && c.Def.Kind == "func", func() { c.OnUpdate = !c.OnUpdate })
	add(isTime && c.Def == nil, func() { c.Def, c.OnUpdate = &Def{"func", "CURRENT_TIMESTAMP"}, t.Bool() })
	add((c.Type == "varchar" || c.Type == "varbinary") && c.Def == nil, func() {
		c.Args[0] = engine.Pick(t, []string{"16", "20", "40", "60", "255"})
	})
	add(c.Type == "decimal" && c.Def == nil, func() {
		if t.Bool() {
			c.Args[0] = engine.Pick(t, []string{"10", "12", "20"})
		} else {
			c.Args[1] = fmt.Sprint(t.N(4))
		}
	})
	add(c.Type == "enum", func() {
		n := engine.Pick(t, []string{"zz", "in review"})
		for _, e := range c.Enum {
			if e == n {
				return
			}
		}
		c.Enum = append(append([]string(nil), c.Enum...), n)
	})
	add(c.Def != nil && !c.OnUpdate, func() { c.Def = nil })
	engine.Pick(t, opts)()
}

func MyMutate(t *engine.T, cfg MyCfg, cur *Schema, steps int) *Schema {
	s := cur.Clone()
	for i := 0; i < steps; i++ {
		if len(s.Tables) == 0 {
			s.Tables = append(s.Tables, myTable(t, cfg, s))
			continue
		}
		k := t.N(100)
		tb := engine.Pick(t, s.Tables)
		switch {
		case k < 6:
			if len(s.Tables) < 6 {
				s.Tables = append(s.Tables, myTable(t, cfg, s))
			}
		case k < 12:
			if len(s.Tables) > 0 {
				j := t.N(len(s.Tables))
				s.Tables = append(append([]*Table(nil), s.Tables[:j]...), s.Tables[j+1:]...)
			}
		case k < 24:
			c := myCol(t, cfg, tb.Name, freshName(t, colNames, oddColNames, cfg.Odd, tb.takenCol))
			p := t.N(len(tb.Cols) + 1)
			tb.Cols = append(tb.Cols, nil)
			copy(tb.Cols[p+1:], tb.Cols[p:])
			tb.Cols[p] = c
		case k < 34:
			if len(tb.Cols) > 1 {
				tb.dropCol(engine.Pick(t, tb.Cols).Name)
			}
		case k < 38:
			engine.Shuffle(t, tb.Cols)
		case k < 43:
			c := engine.Pick(t, tb.Cols)
			old := c.Clone()
			myType(t, c, tb.Name)
			if old.Charset != "" || old.Collate != "" { // explicit -> implicit is not tracked
				c.Type, c.Args, c.Enum = old.Type, old.Args, old.Enum
				c.Charset, c.Collate, c.Def, c.Unsigned = old.Charset, old.Collate, old.Def, old.Unsigned
			}
		case k < 55:
			myTweak(t, engine.Pick(t, tb.Cols))
		case k < 61:
			c := engine.Pick(t, tb.Cols)
			if c.Def != nil && t.Chance(35) {
				c.Def, c.OnUpdate = nil, false
			} else {
				myDefault(t, c)
			}
		case k < 64:
			c := engine.Pick(t, tb.Cols)
			if myStringTypes[c.Type] && cfg.Colls {
				myCharset(t, c)
			}
		case k < 67:
			c := engine.Pick(t, tb.Cols)
			c.AutoInc = !c.AutoInc
		case k < 74:
			myAddIndex(t, s, tb)
		case k < 80:
			if len(tb.Idx) > 0 {
				tb.dropIdx(engine.Pick(t, tb.Idx))
			}
		case k < 85:
			if len(tb.Idx) > 0 {
				ix := engine.Pick(t, tb.Idx)
				if ix.Kind == "fulltext" || tb.Col(ix.Name) != nil {
					break
				}
				if ix.Kind == "primary" || t.Chance(60) {
					if c := myIdxCols(t, s, tb); len(c) > 0 {
						if ix.Kind == "primary" {
							for i := range c {
								c[i].Len, c[i].Desc = "", false
							}
						}
						ix.Cols = c
					}
				} else if ix.Kind == "index" {
					ix.Kind = "unique"
				} else {
					ix.Kind = "index"
				}
			} else if tb.PK() == nil {
				tb.Idx = append(tb.Idx, &Index{Kind: "primary", Cols: []IdxCol{{Name: tb.Cols[0].Name}}})
			}
		case k < 89:
			myAddFK(t, s, tb)
		case k < 92:
			if len(tb.FKs) > 0 {
				f := engine.Pick(t, tb.FKs)
				if t.Bool() {
					tb.dropFK(f)
				} else if c := tb.Col(f.Col); c != nil {
					myFKActions(t, s, f, c)
				}
			}
		case k < 97:
			if !cfg.Views {
				break
			}
			switch {
			case len(s.Views) > 0 && t.Chance(35):
				j := t.N(len(s.Views))
				s.Views = append(append([]*View(nil), s.Views[:j]...), s.Views[j+1:]...)
			case len(s.Views) > 0 && t.Chance(50):
				j := t.N(len(s.Views))
				if v := myView(t, s, s.Views[j].Name); v != nil {
					s.Views[j] = v
				}
			default:
				if v := myView(t, s, freshName(t, viewNames, nil, 0, s.takenTable)); v != nil {
					s.Views = append(s.Views, v)
				}
			}
		default:
			if !cfg.Trigs {
				break
			}
			n := engine.Pick(t, trigNames)
			g := myTrigger(t, s, n)
			if g == nil {
				break
			}
			if o := s.trig(n); o != nil {
				*o = *g
			} else {
				s.Triggers = append(s.Triggers, g)
			}
		}
	}
	MyRepair(s)
	for i := 0; i < 8; i++ {
		before := fmt.Sprint(Dump(s))
		MyRestrict(cur, s)
		MyRepair(s)
		if fmt.Sprint(Dump(s)) == before {
			break
		}
	}
	return s
}

// Dump is a short textual form for comparing.
func Dump(s *Schema) string {
	var sb strings.Builder
	for _, t := range s.Tables {
		fmt.Fprintf(&sb, "T %s.%s\n", t.Schema, t.Name)
		for _, c := range t.Cols {
			fmt.Fprintf(&sb, " %+v %+v\n", *c, c.Def)
		}
		for _, c := range t.Idx {
			fmt.Fprintf(&sb, " %+v\n", *c)
		}
		for _, c := range t.FKs {
			fmt.Fprintf(&sb, " %+v\n", *c)
		}
		for _, c := range t.Policies {
			fmt.Fprintf(&sb, " %+v\n", *c)
		}
	}
	for _, v := range s.Views {
		fmt.Fprintf(&sb, "V %+v\n", *v)
	}
	for _, v := range s.Triggers {
		fmt.Fprintf(&sb, "G %+v\n", *v)
	}
	return sb.String()
}

func sameIdxCols(a, b *Index) bool {
	if len(a.Cols) != len(b.Cols) {
		return false
	}
	for i := range a.Cols {
		if a.Cols[i] != b.Cols[i] {
			return false
		}
	}
	return true
}

// MyRestrict removes from the desired schema the changes that are outside
// the supported subset (see DESIGN.md).
func MyRestrict(cur, des *Schema) {
	for _, tb := range des.Tables {
		old := cur.Table(tb.Name)
		if old == nil {
			continue
		}
		// columns taking part in current foreign keys keep their type; keys
		// that serve a foreign key which stays are left alone
		frozenCol := map[string]bool{}
		frozenIdx := map[string]bool{}
		for _, o := range cur.Tables {
			for _, f := range o.FKs {
				if o == old {
					frozenCol[f.Col] = true
					for _, ix := range old.Idx {
						if ix.Cols[0].Name == f.Col {
							frozenIdx[ix.Kind+"/"+ix.Name] = true
							for _, ic := range ix.Cols {
								frozenCol[ic.Name] = true
							}
						}
					}
				}
				if f.Ref == old.Name {
					frozenCol[f.RefCol] = true
					for _, ix := range old.Idx {
						if ix.Cols[0].Name == f.RefCol {
							frozenIdx[ix.Kind+"/"+ix.Name] = true
							for _, ic := range ix.Cols {
								frozenCol[ic.Name] = true
							}
						}
					}
				}
			}
		}
		fkStays := func(c string) bool { // a foreign key on the column exists before and after
			for _, o := range cur.Tables {
				for _, f := range o.FKs {
					n := des.Table(o.Name)
					if n != nil && n.FK(f.Name) != nil && (o == old && f.Col == c || f.Ref == old.Name && f.RefCol == c) {
						return true
					}
				}
			}
			return false
		}
		for i, c := range tb.Cols {
			oc := old.Col(c.Name)
			if oc == nil {
				continue
			}
			if frozenCol[c.Name] {
				n := oc.Clone()
				n.NotNull, n.Def, n.AutoInc = oc.NotNull, c.Def, c.AutoInc
				if oc.Type != c.Type {
					n.Def = oc.Def
				}
				tb.Cols[i] = n
				c = n
			}
			if !myIndexable(c) && myIndexable(oc) || (c.Type == "text" || c.Type == "varchar") != (oc.Type == "text" || oc.Type == "varchar") || c.Type == "varchar" && oc.Type == "varchar" {
				for _, ix := range old.Idx { // a type its current keys do not allow
					if !ix.Has(c.Name) {
						continue
					}
					nn, d, ai := c.NotNull, c.Def, c.AutoInc
					if c.Type != oc.Type {
						d = oc.Def
					}
					c = oc.Clone()
					c.NotNull, c.Def, c.AutoInc = nn, d, ai
					tb.Cols[i] = c
				}
			}
			if c.Charset == "" && c.Collate == "" && (oc.Charset != "" || oc.Collate != "") && myStringTypes[c.Type] && myStringTypes[oc.Type] {
				c.Charset, c.Collate = oc.Charset, oc.Collate
			}
			c.Comment = oc.Comment
			tiny := func(c *Col) bool { return c.Type == "tinyint" || c.Type == "boolean" }
			if len(c.Args) == 0 && c.Type == oc.Type && len(oc.Args) > 0 || tiny(c) && tiny(oc) || c.Type == oc.Type && (c.Type == "datetime" || c.Type == "timestamp") && len(c.Args) != len(oc.Args) { // explicit -> implicit length is not tracked
				c.Type, c.Args = oc.Type, append([]string(nil), oc.Args...)
			}
			if oc.AutoInc && c.AutoInc { // its key stays
				ok := false
				for _, ix := range old.Idx {
					if ix.Kind == "fulltext" || ix.Cols[0].Name != c.Name {
						continue
					}
					for _, n := range tb.Idx {
						ok = ok || n.Kind == ix.Kind && n.Name == ix.Name && sameIdxCols(n, ix)
					}
				}
				c.AutoInc = ok
			}
			// a column leaving the primary key stays NOT NULL
			if opk := old.PK(); opk != nil && opk.Has(c.Name) && (tb.PK() == nil || !tb.PK().Has(c.Name)) {
				c.NotNull = true
			}
		}
		for _, f := range tb.FKs {
			if of := old.FK(f.Name); of != nil && (of.Col != f.Col || of.Ref != f.Ref || of.RefCol != f.RefCol) {
				f.Col, f.Ref, f.RefCol = of.Col, of.Ref, of.RefCol
			}
		}
		for _, ix := range append([]*Index(nil), old.Idx...) {
			if frozenIdx[ix.Kind+"/"+ix.Name] {
				var n *Index
				if ix.Kind == "primary" {
					n = tb.PK()
				} else {
					n = tb.Index(ix.Name)
				}
				all := true
				for _, c := range ix.Cols {
					all = all && tb.Col(c.Name) != nil
				}
				if n != nil && (!sameIdxCols(n, ix) || n.Kind != ix.Kind) && all {
					n.Cols = append([]IdxCol(nil), ix.Cols...)
					n.Kind = ix.Kind
				}
				if n != nil && !all && ix.Kind != "primary" && !fkStays(ix.Cols[0].Name) { // the name is not reused
					tb.dropIdx(n)
					continue
				}
				if n == nil && all && (fkStays(ix.Cols[0].Name) || ix.Kind == "primary") {
					y := *ix
					y.Cols = append([]IdxCol(nil), ix.Cols...)
					if ix.Kind == "primary" && tb.PK() == nil || ix.Kind != "primary" {
						tb.Idx = append(tb.Idx, &y)
					}
				}
				if !all && (ix.Kind == "primary" || fkStays(ix.Cols[0].Name)) { // keep the columns of a key that must stay
					for _, c := range ix.Cols {
						if tb.Col(c.Name) == nil {
							tb.Cols = append(tb.Cols, old.Col(c.Name).Clone())
						}
					}
					if n == nil {
						y := *ix
						y.Cols = append([]IdxCol(nil), ix.Cols...)
						tb.Idx = append(tb.Idx, &y)
					} else {
						n.Cols = append([]IdxCol(nil), ix.Cols...)
					}
				}
			}
		}
		for _, ix := range tb.Idx {
			if ix.Kind == "primary" {
				continue
			}
			if o := old.Index(ix.Name); o != nil {
				if o.Kind == "fulltext" || ix.Kind == "fulltext" {
					*ix = *o
					continue
				}
				for i := range ix.Cols { // a changed prefix length alone is not tracked
					for _, oc := range o.Cols {
						if oc.Name == ix.Cols[i].Name && oc.Len != ix.Cols[i].Len {
							ix.Name = ix.Name + "_n"
							i = len(ix.Cols)
							break
						}
					}
					if i >= len(ix.Cols) {
						break
					}
				}
			}
		}
		if pk := tb.PK(); pk != nil { // columns a current foreign key sets to NULL
			for _, f := range old.FKs {
				if (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") && pk.Has(f.Col) {
					tb.dropIdx(pk)
					if c := tb.Col(f.Col); c != nil {
						c.NotNull = false
					}
					break
				}
			}
		}
		unchanged := func(o *Index) bool {
			for _, n := range tb.Idx {
				if n.Kind == o.Kind && n.Name == o.Name && sameIdxCols(n, o) {
					return true
				}
			}
			return false
		}
		for _, f := range append([]*FK(nil), tb.FKs...) { // a new foreign key takes over a key that goes
			if old.FK(f.Name) != nil {
				continue
			}
			takes := false
			for _, o := range old.Idx {
				takes = takes || o.Cols[0].Name == f.Col && !unchanged(o)
			}
			for _, o := range old.FKs {
				takes = takes || o.Col == f.Col && tb.FK(o.Name) == nil
			}
			if takes {
				tb.dropFK(f)
			}
		}
		for _, f := range old.FKs { // the server drops an implicit key by itself when another one can replace it
			if tb.FK(f.Name) != nil {
				continue
			}
			for _, ix := range append([]*Index(nil), tb.Idx...) {
				if o := old.Index(ix.Name); ix.Kind != "fulltext" && ix.Cols[0].Name == f.Col && (ix.Kind == "primary" && (old.PK() == nil || !sameIdxCols(old.PK(), ix)) || ix.Kind != "primary" && (o == nil || !sameIdxCols(o, ix) || o.Kind != ix.Kind)) {
					tb.dropIdx(ix)
				}
			}
		}
		for _, o := range old.Idx { // several unique keys on a column that may be written UNIQUE
			if n := tb.Index(o.Cols[0].Name); o.Kind == "unique" && len(o.Cols) == 1 && n != nil && n.Kind == "unique" && tb.Index(o.Name) == nil && len(n.Cols) == 1 && n.Cols[0].Name == o.Cols[0].Name {
				y := *o
				y.Cols = append([]IdxCol(nil), o.Cols...)
				tb.Idx = append(tb.Idx, &y)
			}
		}
		names := map[string]bool{}
		for _, ix := range append([]*Index(nil), tb.Idx...) {
			k := strings.ToLower(ix.Name)
			if ix.Kind == "primary" {
				k = "PRIMARY KEY"
			}
			if names[k] {
				tb.dropIdx(ix)
			}
			names[k] = true
		}
	}
	// triggers of tables that stay are never dropped
	for _, g := range cur.Triggers {
		if des.Table(g.Table) != nil && des.trig(g.Name) == nil {
			c := *g
			des.Triggers = append(des.Triggers, &c)
		}
	}
}

// Style is how a schema is spelled.
type Style struct {
	t        *engine.T
	Quote    int // percent of optional quoting
	Upper    int // 0 lower 1 upper 2 mixed
	Multi    bool
	Comments bool
	Aliases  bool
	ExplNull bool
	Separate int // percent of keys written as separate statements
	Inline   int // percent of keys written inline where possible
	Shuffle  bool
}

// NewStyle draws a spelling.
func NewStyle(t *engine.T) *Style {
	return &Style{t: t, Quote: engine.Pick(t, []int{0, 100, 50}), Upper: t.N(3), Multi: t.Bool(), Comments: t.Chance(30), Aliases: t.Bool(), ExplNull: t.Chance(40), Separate: engine.Pick(t, []int{0, 50, 100}), Inline: engine.Pick(t, []int{0, 50, 100}), Shuffle: t.Chance(40)}
}

func (st *Style) kw(s string) string {
	switch st.Upper {
	case 1:
		return strings.ToUpper(s)
	case 2:
		if st.t.Bool() {
			return strings.ToUpper(s)
		}
	}
	return strings.ToLower(s)
}

func (st *Style) myq(n string) string {
	if !plain(n) || st.t.Chance(st.Quote) {
		return "`" + n + "`"
	}
	return n
}

// MyStr writes a MySQL string literal.
func MyStr(s string) string {
	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\").Replace(s) + "'"
}

func (st *Style) myColDef(tb *Table, c *Col, inlinePK, inlineUnique bool) string {
	var p []string
	p = append(p, st.myq(c.Name))
	ty := c.Type
	if st.Aliases {
		switch {
		case ty == "int" && st.t.Bool():
			ty = "integer"
		case ty == "tinyint" && len(c.Args) == 1 && c.Args[0] == "1":
			ty = engine.Pick(st.t, []string{"tinyint(1)", "boolean", "bool"})
		case ty == "boolean":
			ty = engine.Pick(st.t, []string{"tinyint(1)", "boolean", "bool"})
		case ty == "char" && st.t.Bool():
			ty = "character"
		}
	} else if ty == "tinyint" && len(c.Args) == 1 {
		ty = "tinyint(1)"
	}
	ty = st.kw(ty)
	if c.Enum != nil {
		var e []string
		for _, x := range c.Enum {
			e = append(e, MyStr(x))
		}
		ty += "(" + strings.Join(e, engine.Pick(st.t, []string{", ", ","})) + ")"
	} else if len(c.Args) > 0 && c.Type != "tinyint" {
		ty += "(" + strings.Join(c.Args, engine.Pick(st.t, []string{",", ", "})) + ")"
	}
	p = append(p, ty)
	if c.Unsigned {
		p = append(p, st.kw("unsigned"))
	}
	if c.Charset != "" {
		p = append(p, st.kw("character set")+" "+c.Charset)
	}
	if c.Collate != "" {
		p = append(p, st.kw("collate")+" "+c.Collate)
	}
	var attrs []string
	if c.NotNull && !(inlinePK && st.t.Bool()) {
		attrs = append(attrs, st.kw("not null"))
	} else if !c.NotNull && (c.Type == "timestamp" || st.ExplNull && st.t.Bool()) {
		attrs = append(attrs, st.kw("null"))
	}
	switch {
	case c.Def != nil:
		attrs = append(attrs, st.kw("default")+" "+st.myDef(c))
	case !c.NotNull && st.ExplNull && st.t.Bool() && c.Type != "blob":
		attrs = append(attrs, st.kw("default null"))
	}
	if c.AutoInc {
		attrs = append(attrs, st.kw("auto_increment"))
	}
	if c.OnUpdate {
		attrs = append(attrs, st.kw("on update")+" "+st.kw("current_timestamp"))
	}
	p = append(p, attrs...)
	if inlinePK {
		p = append(p, st.kw("primary key"))
	}
	if inlineUnique {
		p = append(p, st.kw(engine.Pick(st.t, []string{"unique", "unique key"})))
	}
	if c.Comment != "" {
		p = append(p, st.kw("comment")+" "+MyStr(c.Comment))
	}
	return strings.Join(p, " ")
}

func (st *Style) myDef(c *Col) string {
	switch c.Def.Kind {
	case "str":
		return MyStr(c.Def.S)
	case "bit":
		return "b'" + c.Def.S + "'"
	case "func":
		return st.kw(c.Def.S)
	}
	s := c.Def.S
	if c.Type == "decimal" && strings.Contains(s, ".") && st.t.Bool() {
		for strings.HasSuffix(s, "0") && !strings.HasSuffix(s, ".0") {
			s = s[:len(s)-1]
		}
	}
	return s
}

func (st *Style) myIdxCols(ix *Index) string {
	var out []string
	for _, c := range ix.Cols {
		x := st.myq(c.Name)
		if c.Len != "" {
			x += "(" + c.Len + ")"
		}
		if c.Desc {
			x += " " + st.kw("desc")
		}
		out = append(out, x)
	}
	return "(" + strings.Join(out, engine.Pick(st.t, []string{", ", ","})) + ")"
}

// Statement is one statement of a rendered file.
type Statement struct {
	SQL   string
	Kind  string // table index fk view trigger policy
	Table string
	Name  string
}

// Join makes the file text.
func (st *Style) Join(stmts []Statement) string {
	var sb strings.Builder
	for i, s := range stmts {
		if st.Comments && st.t.Chance(30) {
			sb.WriteString(engine.Pick(st.t, []string{"-- a comment\n", "--comment; with semicolon 'quote\n", "-- CREATE TABLE nope (id int)\n"}))
		}
		sb.WriteString(s.SQL)
		if i < len(stmts)-1 || st.t.Chance(90) {
			sb.WriteString(engine.Pick(st.t, []string{";\n", ";\n\n", ";", " ;\n"}))
		}
		if st.Comments && !strings.HasSuffix(sb.String(), "\n") {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// MyRender spells a schema.
func MyRender(st *Style, s *Schema) []Statement {
	var out []Statement
	tables := append([]*Table(nil), s.Tables...)
	if st.Shuffle {
		tables = shuffleTopo(st.t, tables)
	}
	refd := map[string]bool{}
	for _, t := range s.Tables {
		for _, f := range t.FKs {
			refd[f.Ref] = true
		}
	}
	var late []Statement
	for _, tb := range tables {
		inlineU := map[string]bool{}
		inlinePK := ""
		var keys, sep []string
		var sepSt []Statement
		for _, ix := range tb.Idx {
			ix := ix
			needed := false // must exist when the table is created
			for _, c := range tb.Cols {
				if c.AutoInc && ix.Cols[0].Name == c.Name {
					needed = true
				}
			}
			for _, f := range tb.FKs {
				if f.Ref == tb.Name && ix.Cols[0].Name == f.RefCol || f.Col == ix.Cols[0].Name {
					needed = true
				}
			}
			if ix.Kind == "primary" {
				if len(ix.Cols) == 1 && st.t.Chance(st.Inline) {
					inlinePK = ix.Cols[0].Name
				} else {
					keys = append(keys, st.kw("primary key")+" "+st.myIdxCols(ix))
				}
				continue
			}
			if ix.Kind == "unique" && ix.Name == ix.Cols[0].Name && len(ix.Cols) == 1 && !(tb.PK() != nil && len(tb.PK().Cols) == 1 && tb.PK().Has(ix.Name)) && st.t.Chance(st.Inline) {
				inlineU[ix.Name] = true
				continue
			}
			opt := ""
			if ix.Parser != "" {
				opt = " " + st.kw("with parser") + " " + ix.Parser
			}
			if !needed && !refd[tb.Name] && ix.Kind != "fulltext" && st.t.Chance(st.Separate) {
				u := ""
				if ix.Kind == "unique" {
					u = st.kw("unique") + " "
				}
				var q string
				if st.t.Bool() {
					q = st.kw("create") + " " + u + st.kw("index") + " " + st.myq(ix.Name) + " " + st.kw("on") + " " + st.myq(tb.Name) + " " + st.myIdxCols(ix)
				} else {
					k := u + st.kw(engine.Pick(st.t, []string{"index", "key"}))
					if ix.Kind == "unique" {
						k = st.kw("unique") + " " + st.kw(engine.Pick(st.t, []string{"index", "key"}))
					}
					q = st.kw("alter table") + " " + st.myq(tb.Name) + " " + st.kw("add") + " " + k + " " + st.myq(ix.Name) + " " + st.myIdxCols(ix)
				}
				sep = append(sep, q)
				sepSt = append(sepSt, Statement{SQL: q, Kind: "index", Table: tb.Name, Name: ix.Name})
				continue
			}
			k := map[string]string{"index": engine.Pick(st.t, []string{"key", "index"}), "unique": engine.Pick(st.t, []string{"unique key", "unique index", "unique key"}), "fulltext": "fulltext key"}[ix.Kind]
			keys = append(keys, st.kw(k)+" "+st.myq(ix.Name)+" "+st.myIdxCols(ix)+opt)
		}
		var body []string
		for _, c := range tb.Cols {
			body = append(body, st.myColDef(tb, c, c.Name == inlinePK, inlineU[c.Name]))
		}
		if st.Shuffle {
			engine.Shuffle(st.t, keys)
		}
		body = append(body, keys...)
		for _, f := range tb.FKs {
			x := st.kw("constraint") + " " + st.myq(f.Name) + " " + st.kw("foreign key") + " (" + st.myq(f.Col) + ") " + st.kw("references") + " " + st.myq(f.Ref) + " (" + st.myq(f.RefCol) + ")"
			if f.OnDelete != "" {
				x += " " + st.kw("on delete") + " " + st.kw(f.OnDelete)
			}
			if f.OnUpdate != "" {
				x += " " + st.kw("on update") + " " + st.kw(f.OnUpdate)
			}
			body = append(body, x)
		}
		tail := ""
		if h := hash(tb.Name); h%3 == 0 {
			tail = " ENGINE=InnoDB DEFAULT CHARSET=utf8mb4"
		} else if h%3 == 1 && st.t.Bool() {
			tail = " DEFAULT CHARSET=utf8mb4"
		}
		q := st.kw("create table") + " " + st.myq(tb.Name) + " " + st.wrap(body) + tail
		out = append(out, Statement{SQL: q, Kind: "table", Table: tb.Name, Name: tb.Name})
		if st.Shuffle && st.t.Bool() {
			late = append(late, sepSt...)
		} else {
			out = append(out, sepSt...)
		}
	}
	out = append(out, late...)
	for _, v := range s.Views {
		out = append(out, Statement{SQL: st.kw("create view") + " " + st.myq(v.Name) + " " + st.kw("as") + " " + st.mySelect(s, v), Kind: "view", Name: v.Name, Table: v.Table})
	}
	for _, g := range s.Triggers {
		out = append(out, Statement{SQL: st.kw("create trigger") + " " + st.myq(g.Name) + " " + st.kw(g.Timing) + " " + st.kw(g.Event) + " " + st.kw("on") + " " + st.myq(g.Table) + " " + st.kw("for each row") + " " + g.Body, Kind: "trigger", Name: g.Name, Table: g.Table})
	}
	return out
}

func (st *Style) mySelect(s *Schema, v *View) string {
	// the canonical form the server stores
	q := func(n string) string { return "`" + n + "`" }
	if st.Quote == 0 {
		q = st.myq
	}
	var cs []string
	for _, c := range v.Cols {
		cs = append(cs, q(s.DB)+"."+q(v.Table)+"."+q(c)+" "+st.kw("as")+" "+q(c))
	}
	r := st.kw("select") + " " + strings.Join(cs, ",") + " " + st.kw("from") + " " + q(s.DB) + "." + q(v.Table)
	if v.Where != "" {
		r += " " + st.kw("where") + " (" + q(s.DB) + "." + q(v.Table) + "." + q(v.Where) + " = " + v.WhereVal + ")"
	}
	return r
}

func (st *Style) wrap(body []string) string {
	if st.Multi {
		return "(\n  " + strings.Join(body, ",\n  ") + "\n)"
	}
	return "(" + strings.Join(body, ", ") + ")"
}

// shuffleTopo permutes tables keeping referenced ones first.
func shuffleTopo(t *engine.T, tables []*Table) []*Table {
	rest := append([]*Table(nil), tables...)
	var out []*Table
	done := map[string]bool{}
	key := func(x *Table) string { return x.Name }
	for len(rest) > 0 {
		var ready []int
		for i, x := range rest {
			ok := true
			for _, f := range x.FKs {
				if f.Ref != key(x) && !done[f.Ref] {
					ok = false
				}
			}
			if ok {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			sort.SliceStable(rest, func(i, j int) bool { return false })
			return append(out, rest...)
		}
		i := engine.Pick(t, ready)
		out = append(out, rest[i])
		done[key(rest[i])] = true
		rest = append(rest[:i], rest[i+1:]...)
	}
	return out
}
