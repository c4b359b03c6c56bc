package sim

import (
	"fmt"
	"sort"
	"strings"
)

// Val is a canonical default value.
type Val struct {
	Kind string // str num bit func null expr bool
	S    string
}

func (v *Val) String() string {
	if v == nil {
		return "-"
	}
	return v.Kind + ":" + v.S
}

// Check is a check constraint of a column.
type Check struct {
	Name      string
	Expr      string // canonical token text
	Raw       string // as the catalog reports it
	NoInherit bool
	NotForRep bool
}

// Identity is an identity property.
type Identity struct {
	Behavior  string // ALWAYS, BY DEFAULT (PostgreSQL)
	Seed, Inc string // SQL Server; start/increment for PostgreSQL
	NotForRep bool
}

// Col is a column of a table.
type Col struct {
	Name             string
	Type             string
	Args             []string
	Unsigned         bool
	Zerofill         bool
	Enum             []string
	Array            bool
	TZ               bool
	Charset, Collate string
	NotNull          bool
	Default          *Val
	DefaultName      string
	DefaultRaw       string
	OnUpdate         string
	AutoInc          bool
	Comment          string
	Check            *Check
	Identity         *Identity
	Serial           bool
	Num              int // attribute number (PostgreSQL), column id (SQL Server)
	Mark             int64
}

// IdxCol is a column of an index.
type IdxCol struct {
	Name string
	Len  string
	Desc bool
}

// Index is an index or a key constraint.
type Index struct {
	Name       string
	Kind       string // primary unique index fulltext
	Cols       []IdxCol
	Parser     string
	Comment    string
	Method     string
	Where      string
	WhereRaw   string
	WhereCols  []string
	Included   []string
	Options    []string
	Clustered  bool
	Constraint bool // made by a constraint, dropped with DROP CONSTRAINT
	NamedBySys bool
	Implicit   bool // made by the server for a foreign key
	Partition  string
	Mark       int64
}

// FK is a foreign key.
type FK struct {
	Name      string
	Cols      []string
	RefSchema string
	Ref       string
	RefCols   []string
	OnDelete  string
	OnUpdate  string
	NotForRep bool
	Mark      int64
}

// Policy is a row security policy.
type Policy struct {
	Name       string
	Permissive string
	Cmd        string
	Roles      []string
	Using      string // canonical
	Check      string
	Cols       []string // columns it refers to
	UsingRaw   string   // as the catalog prints it
	CheckRaw   string
	Mark       int64
}

// Table is a table.
type Table struct {
	Schema   string
	Name     string
	Cols     []*Col
	Indexes  []*Index
	FKs      []*FK
	Policies []*Policy
	Charset  string
	Collate  string
	Comment  string
	Next     int   // last column number given
	Gone     []int // numbers of dropped columns
	Mark     int64
}

// View is a view.
type View struct {
	Schema string
	Name   string
	Def    string // canonical
	Raw    string // as the catalog prints it
	Text   string // statement text
	Tables []string
	Cols   []string // result column names
	Types  []string // and their types
	Uses   map[string]map[string]bool
	Mark   int64
}

// Trigger is a trigger.
type Trigger struct {
	Name, Table, Timing, Event string
	Body                       string // canonical
	Raw                        string
	Text                       string
	Mark                       int64
}

// State is the contents of a simulated database.
type State struct {
	Tables   []*Table
	Views    []*View
	Triggers []*Trigger
}

// Clone copies deeply.
func (s *State) Clone() *State {
	n := &State{}
	for _, t := range s.Tables {
		c := *t
		c.Cols, c.Indexes, c.FKs, c.Policies = nil, nil, nil, nil
		c.Gone = append([]int(nil), t.Gone...)
		for _, x := range t.Cols {
			y := *x
			y.Args = append([]string(nil), x.Args...)
			y.Enum = append([]string(nil), x.Enum...)
			if x.Default != nil {
				d := *x.Default
				y.Default = &d
			}
			if x.Check != nil {
				d := *x.Check
				y.Check = &d
			}
			if x.Identity != nil {
				d := *x.Identity
				y.Identity = &d
			}
			c.Cols = append(c.Cols, &y)
		}
		for _, x := range t.Indexes {
			y := *x
			y.Cols = append([]IdxCol(nil), x.Cols...)
			y.Included = append([]string(nil), x.Included...)
			y.WhereCols = append([]string(nil), x.WhereCols...)
			y.Options = append([]string(nil), x.Options...)
			c.Indexes = append(c.Indexes, &y)
		}
		for _, x := range t.FKs {
			y := *x
			y.Cols = append([]string(nil), x.Cols...)
			y.RefCols = append([]string(nil), x.RefCols...)
			c.FKs = append(c.FKs, &y)
		}
		for _, x := range t.Policies {
			y := *x
			y.Roles = append([]string(nil), x.Roles...)
			y.Cols = append([]string(nil), x.Cols...)
			c.Policies = append(c.Policies, &y)
		}
		n.Tables = append(n.Tables, &c)
	}
	for _, v := range s.Views {
		c := *v
		n.Views = append(n.Views, &c)
	}
	for _, v := range s.Triggers {
		c := *v
		n.Triggers = append(n.Triggers, &c)
	}
	return n
}

func (s *State) table(schema, name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name && t.Schema == schema {
			return t
		}
	}
	return nil
}
func (s *State) view(schema, name string) *View {
	for _, t := range s.Views {
		if t.Name == name && t.Schema == schema {
			return t
		}
	}
	return nil
}
func (s *State) trigger(name string) *Trigger {
	for _, t := range s.Triggers {
		if t.Name == name {
			return t
		}
	}
	return nil
}

// Full is the qualified name.
func (t *Table) Full() string { return t.full() }

func (t *Table) full() string {
	if t.Schema != "" {
		return t.Schema + "." + t.Name
	}
	return t.Name
}
func (t *Table) col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}
func (t *Table) colFold(name string) *Col {
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}
func (t *Table) colPos(name string) int {
	for i, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			return i
		}
	}
	return -1
}
func (t *Table) index(name string) *Index {
	for _, c := range t.Indexes {
		if strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}
func (t *Table) primary() *Index {
	for _, c := range t.Indexes {
		if c.Kind == "primary" {
			return c
		}
	}
	return nil
}
func (t *Table) fk(name string) *FK {
	for _, c := range t.FKs {
		if c.Name == name {
			return c
		}
	}
	return nil
}
func (t *Table) policy(name string) *Policy {
	for _, c := range t.Policies {
		if c.Name == name {
			return c
		}
	}
	return nil
}
func (ix *Index) names() []string {
	var out []string
	for _, c := range ix.Cols {
		out = append(out, c.Name)
	}
	return out
}
func (ix *Index) has(col string) bool {
	for _, c := range ix.Cols {
		if strings.EqualFold(c.Name, col) {
			return true
		}
	}
	return false
}
func hasPrefix(cols, prefix []string) bool {
	if len(cols) < len(prefix) {
		return false
	}
	for i := range prefix {
		if !strings.EqualFold(cols[i], prefix[i]) {
			return false
		}
	}
	return true
}
func removeCol(t *Table, name string) {
	for i, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			t.Cols = append(append([]*Col(nil), t.Cols[:i]...), t.Cols[i+1:]...)
			return
		}
	}
}
func removeIndex(t *Table, ix *Index) {
	for i, c := range t.Indexes {
		if c == ix {
			t.Indexes = append(append([]*Index(nil), t.Indexes[:i]...), t.Indexes[i+1:]...)
			return
		}
	}
}
func removeFK(t *Table, fk *FK) {
	for i, c := range t.FKs {
		if c == fk {
			t.FKs = append(append([]*FK(nil), t.FKs[:i]...), t.FKs[i+1:]...)
			return
		}
	}
}

// Effect is what one statement did to one object.
type Effect struct {
	Stmt int
	Verb string // create drop alter
	Key  string
	Via  string // object whose removal caused it
}

// Canon describes the schema: object key -> definition. Attributes the tool
// documents as untracked (comments, table options) are left out.
func (s *State) Canon(d Dialect) map[string]string {
	m := map[string]string{}
	for _, t := range s.Tables {
		n := t.full()
		m["table "+n] = ""
		if d == MySQL {
			var order []string
			for _, c := range t.Cols {
				order = append(order, c.Name)
			}
			m["order "+n] = strings.Join(order, ",")
		}
		for _, c := range t.Cols {
			m["column "+n+"."+c.Name] = c.canon(d)
		}
		for _, ix := range t.Indexes {
			nm := ix.Name
			if ix.Kind == "primary" && d != MSSQL || ix.NamedBySys && d == MSSQL {
				nm = "(" + ix.Kind + ")"
				if ix.Kind != "primary" {
					nm += strings.Join(ix.names(), ",")
				}
			}
			m["index "+n+"."+nm] = ix.canon(d)
		}
		for _, f := range t.FKs {
			m["fk "+n+"."+f.Name] = fmt.Sprintf("(%s) -> %s.%s(%s) del=%s upd=%s nfr=%v", strings.Join(f.Cols, ","), f.RefSchema, f.Ref, strings.Join(f.RefCols, ","), f.OnDelete, f.OnUpdate, f.NotForRep)
		}
		for _, p := range t.Policies {
			r := append([]string(nil), p.Roles...)
			sort.Strings(r)
			m["policy "+n+"."+p.Name] = fmt.Sprintf("%s for %s to %s using %s check %s", p.Permissive, p.Cmd, strings.Join(r, ","), p.Using, p.Check)
		}
	}
	for _, v := range s.Views {
		n := v.Name
		if v.Schema != "" {
			n = v.Schema + "." + n
		}
		m["view "+n] = v.Def
	}
	for _, t := range s.Triggers {
		m["trigger "+t.Name] = fmt.Sprintf("%s %s on %s: %s", t.Timing, t.Event, t.Table, t.Body)
	}
	return m
}

func (c *Col) canon(d Dialect) string {
	var sb strings.Builder
	sb.WriteString(c.Type)
	if len(c.Args) > 0 {
		sb.WriteString("(" + strings.Join(c.Args, ",") + ")")
	}
	if c.Unsigned {
		sb.WriteString(" unsigned")
	}
	if c.Zerofill {
		sb.WriteString(" zerofill")
	}
	if c.Enum != nil {
		fmt.Fprintf(&sb, " %q", c.Enum)
	}
	if c.Array {
		sb.WriteString("[]")
	}
	if c.TZ {
		sb.WriteString(" tz")
	}
	if c.Charset != "" {
		sb.WriteString(" cs=" + c.Charset + "/" + c.Collate)
	}
	if c.NotNull {
		sb.WriteString(" not null")
	}
	if c.Default != nil {
		fmt.Fprintf(&sb, " default %s %q", c.Default.Kind, c.Default.S)
		if d == MSSQL && c.DefaultName != "" && !strings.HasPrefix(c.DefaultName, "DF__") {
			sb.WriteString(" named " + c.DefaultName)
		}
	}
	if c.OnUpdate != "" {
		sb.WriteString(" on update " + c.OnUpdate)
	}
	if c.AutoInc {
		sb.WriteString(" auto_increment")
	}
	if c.Serial {
		sb.WriteString(" serial")
	}
	if c.Check != nil {
		fmt.Fprintf(&sb, " check %s noinherit=%v nfr=%v", c.Check.Expr, c.Check.NoInherit, c.Check.NotForRep)
		if d == MSSQL && c.Check.Name != "" && !strings.HasPrefix(c.Check.Name, "CK__") {
			sb.WriteString(" named " + c.Check.Name)
		}
	}
	if c.Identity != nil {
		fmt.Fprintf(&sb, " identity %s %s,%s nfr=%v", c.Identity.Behavior, c.Identity.Seed, c.Identity.Inc, c.Identity.NotForRep)
	}
	return sb.String()
}

func (ix *Index) canon(d Dialect) string {
	var cols []string
	for _, c := range ix.Cols {
		s := c.Name
		if c.Len != "" {
			s += "(" + c.Len + ")"
		}
		if c.Desc {
			s += " desc"
		}
		cols = append(cols, s)
	}
	s := ix.Kind + "(" + strings.Join(cols, ",") + ")"
	if ix.Parser != "" {
		s += " parser " + ix.Parser
	}
	if ix.Where != "" {
		s += " where " + ix.Where
	}
	if len(ix.Included) > 0 {
		s += " include(" + strings.Join(ix.Included, ",") + ")"
	}
	if len(ix.Options) > 0 {
		o := append([]string(nil), ix.Options...)
		sort.Strings(o)
		s += " with " + strings.Join(o, ",")
	}
	if d == MSSQL {
		s += fmt.Sprintf(" clustered=%v partition=%s", ix.Clustered, ix.Partition)
	}
	return s
}

// Diff lists the differences between two canonical descriptions.
func Diff(got, want map[string]string) []string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("missing %s: %s", k, v))
		} else if g != v {
			out = append(out, fmt.Sprintf("%s is {%s}, should be {%s}", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("left over %s: %s", k, v))
		}
	}
	sort.Strings(out)
	return out
}
