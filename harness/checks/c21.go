package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"

	"verif.local/harness/engine"
)

// val is a native value with the typed value it must become.
type val struct {
	native interface{}
	typ    querypb.Type
	raw    []byte
}

func genBytes(t *engine.T) []byte {
	switch t.N(4) {
	case 0:
		return []byte(engine.Pick(t, []string{"", "a", "it's", "\\", "'", "\"", "\x00", "\x1a", "\b\n\r\t", "\\'", "--", "é", "\\%", "''", "0", "null"}))
	case 1:
		return []byte(strings.Repeat(engine.Pick(t, []string{"'", "\\", "x", "\x00"}), t.N(40)))
	}
	b := make([]byte, t.N(12))
	for i := range b {
		b[i] = byte(t.N(256))
	}
	return b
}

func genInt(t *engine.T) int64 {
	switch t.N(4) {
	case 0:
		return int64(t.N(20)) - 10
	case 1:
		return engine.Pick(t, []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 53})
	}
	return int64(uint64(t.N(1<<30))<<34|uint64(t.N(1<<30))) >> uint(t.N(60))
}

func genFloat(t *engine.T) float64 {
	switch t.N(3) {
	case 0:
		return engine.Pick(t, []float64{0, 1, -1.5, 1e300, 1e-300, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 123456789})
	}
	return float64(genInt(t)) / float64(1+t.N(1000))
}

func genVal(t *engine.T) val {
	switch t.N(7) {
	case 0:
		return val{nil, sqltypes.Null, nil}
	case 1:
		b := genBytes(t)
		return val{b, sqltypes.VarBinary, b}
	case 2:
		b := genBytes(t)
		return val{string(b), sqltypes.VarChar, b}
	case 3:
		i := genInt(t)
		return val{i, sqltypes.Int64, []byte(strconv.FormatInt(i, 10))}
	case 4:
		u := uint64(genInt(t))
		return val{u, sqltypes.Uint64, []byte(strconv.FormatUint(u, 10))}
	case 5:
		f := genFloat(t)
		return val{f, sqltypes.Float64, nil}
	}
	i := int(genInt(t))
	return val{i, sqltypes.Int64, []byte(strconv.Itoa(i))}
}

func show(v interface{}) string { return fmt.Sprintf("%T(%#v)", v, v) }

// sameNumber: the text denotes exactly the float.
func sameNumber(text []byte, f float64) bool {
	g, err := strconv.ParseFloat(string(text), 64)
	return err == nil && g == f
}

func (w val) is(typ querypb.Type, raw []byte) bool {
	if typ != w.typ {
		return false
	}
	if f, ok := w.native.(float64); ok {
		return sameNumber(raw, f)
	}
	return bytes.Equal(raw, w.raw)
}

// readBack: the tokenizer and parser read the encoded literal as the value.
func (w val) readBack(enc string) *engine.Failure {
	stmt, err := sqlparser.Parse("select " + enc)
	if err != nil {
		return engine.Fail("encoded-invalid", "%s encoded as %q does not parse: %v", show(w.native), enc, err)
	}
	e := stmt.(*sqlparser.Select).SelectExprs
	if len(e) != 1 {
		return engine.Fail("encoded-invalid", "%s encoded as %q is %d expressions", show(w.native), enc, len(e))
	}
	return w.isExpr(e[0].(*sqlparser.AliasedExpr).Expr, enc)
}

func (w val) isExpr(e sqlparser.Expr, enc string) *engine.Failure {
	neg := false
	if u, ok := e.(*sqlparser.UnaryExpr); ok && u.Operator == "-" {
		neg, e = true, u.Expr
	}
	bad := engine.Fail("encoded-differs", "%s encoded as %q reads as %s", show(w.native), enc, sqlparser.String(e))
	if w.typ == sqltypes.Null {
		if _, ok := e.(*sqlparser.NullVal); !ok || neg {
			return bad
		}
		return nil
	}
	v, ok := e.(*sqlparser.SQLVal)
	if !ok {
		return bad
	}
	text := v.Val
	if neg {
		text = append([]byte("-"), text...)
	}
	switch w.typ {
	case sqltypes.VarBinary, sqltypes.VarChar:
		ok = v.Type == sqlparser.StrVal && bytes.Equal(text, w.raw)
	case sqltypes.Float64:
		ok = (v.Type == sqlparser.FloatVal || v.Type == sqlparser.IntVal) && sameNumber(text, w.native.(float64))
	default:
		ok = v.Type == sqlparser.IntVal && bytes.Equal(text, w.raw)
	}
	if !ok {
		return bad
	}
	return nil
}

func encodeValues(t *engine.T) *engine.Failure {
	w := genVal(t)
	t.Logf("value: %s", show(w.native))
	t.Sample(show(w.native))
	t.Label("%T", w.native)
	if len(w.raw) > 1 {
		t.NonTrivial(show(w.native))
	}
	var f *engine.Failure
	g := engine.Guard("converting", func() { f = encodeValue(t, w) })
	if g != nil {
		return g
	}
	return f
}

func encodeValue(t *engine.T, w val) *engine.Failure {
	bv, err := sqltypes.BuildBindVariable(w.native)
	if err != nil || !w.is(bv.Type, bv.Value) {
		return engine.Fail("bind-variable", "%s became %v %q (%v)", show(w.native), bv.GetType(), bv.GetValue(), err)
	}
	if err := sqltypes.ValidateBindVariable(bv); err != nil {
		return engine.Fail("bind-invalid", "%s became an invalid variable: %v", show(w.native), err)
	}
	v, err := sqltypes.BindVariableToValue(bv)
	if err != nil || !w.is(v.Type(), v.Raw()) || !w.is(v.Type(), v.ToBytes()) || v.Len() != len(v.Raw()) || v.ToString() != string(v.Raw()) {
		return engine.Fail("value", "%s became %v (%v)", show(w.native), v, err)
	}
	if n, isInt := w.native.(int); isInt {
		w.native = int64(n)
	}
	if v, err = sqltypes.InterfaceToValue(w.native); err != nil || !w.is(v.Type(), v.Raw()) {
		return engine.Fail("value", "%s became %v (%v)", show(w.native), v, err)
	}
	if v.IsNull() != (w.typ == sqltypes.Null) {
		return engine.Fail("is-null", "IsNull of %v", v)
	}
	if bv2 := sqltypes.ValueBindVariable(v); !w.is(bv2.Type, bv2.Value) {
		return engine.Fail("bind-variable", "%v became %v %q", v, bv2.Type, bv2.Value)
	}
	if p := sqltypes.ProtoToValue(sqltypes.ValueToProto(v)); !reflect.DeepEqual(p, v) {
		return engine.Fail("proto", "%v became %v", v, p)
	}
	if p, err := sqltypes.NewValue(v.Type(), v.Raw()); err != nil || !reflect.DeepEqual(p, v) {
		return engine.Fail("new-value", "%v became %v (%v)", v, p, err)
	}
	var a, b bytes.Buffer
	v.EncodeSQL(&a)
	sqlparser.EncodeValue(&b, bv)
	if a.String() != b.String() {
		return engine.Fail("encodings-differ", "%v encodes as %q and as %q", v, a.String(), b.String())
	}
	if f := w.readBack(a.String()); f != nil {
		return f
	}
	// in ASCII
	a.Reset()
	v.EncodeASCII(&a)
	switch {
	case v.IsQuoted():
		s := a.String()
		d, err := base64.StdEncoding.DecodeString(strings.Trim(s, "'"))
		if err != nil || !bytes.Equal(d, w.raw) || len(s) < 2 || s[0] != '\'' || s[len(s)-1] != '\'' {
			return engine.Fail("ascii", "%v encodes as %q", v, s)
		}
	default:
		if f := w.readBack(a.String()); f != nil {
			return f
		}
	}
	// as a syntax tree
	var lit *sqlparser.SQLVal
	switch w.typ {
	case sqltypes.VarBinary, sqltypes.VarChar:
		lit = sqlparser.NewStrVal(w.raw)
	case sqltypes.Int64, sqltypes.Uint64:
		lit = sqlparser.NewIntVal(w.raw)
	}
	if lit != nil {
		if f := w.readBack(sqlparser.String(lit)); f != nil {
			return f
		}
		pv, err := sqlparser.NewPlanValue(lit)
		if err != nil {
			return engine.Fail("plan-value", "%s: %v", sqlparser.String(lit), err)
		}
		r, err := pv.ResolveValue(nil)
		want := w.typ
		if want == sqltypes.VarChar {
			want = sqltypes.VarBinary
		}
		if n, perr := strconv.ParseInt(string(w.raw), 10, 64); want == sqltypes.Uint64 && perr == nil && n >= 0 {
			want = sqltypes.Int64
		}
		if err != nil || r.Type() != want || !bytes.Equal(r.Raw(), w.raw) {
			return engine.Fail("plan-value", "%s became %v (%v)", sqlparser.String(lit), r, err)
		}
		if pv.IsNull() || pv.IsList() {
			return engine.Fail("plan-kind", "%s is null or a list", sqlparser.String(lit))
		}
	}
	if w.typ == sqltypes.VarBinary || w.typ == sqltypes.VarChar {
		hex := sqlparser.NewHexVal([]byte(fmt.Sprintf("%X", w.raw)))
		d, err := hex.HexDecode()
		if err != nil || !bytes.Equal(d, w.raw) {
			return engine.Fail("hex", "%X decodes to %q (%v)", w.raw, d, err)
		}
		pv, err := sqlparser.NewPlanValue(hex)
		if err != nil {
			return engine.Fail("hex", "plan value: %v", err)
		}
		if r, err := pv.ResolveValue(nil); err != nil || !bytes.Equal(r.Raw(), w.raw) {
			return engine.Fail("hex", "X'%X' resolves to %v (%v)", w.raw, r, err)
		}
	}
	// JSON: numbers and NULL come back, strings are JSON strings
	js, err := json.Marshal(v)
	if err != nil {
		return engine.Fail("json", "%v: %v", v, err)
	}
	switch w.typ {
	case sqltypes.Null:
		var back sqltypes.Value
		if err := json.Unmarshal(js, &back); err != nil || !back.IsNull() {
			return engine.Fail("json", "%s became %v (%v)", js, back, err)
		}
	case sqltypes.Int64, sqltypes.Uint64:
		var back sqltypes.Value
		if err := json.Unmarshal(js, &back); err != nil || !bytes.Equal(back.Raw(), w.raw) {
			return engine.Fail("json", "%s became %v (%v)", js, back, err)
		}
	case sqltypes.Float64:
		if !sameNumber(js, w.native.(float64)) {
			return engine.Fail("json", "%v became %s", v, js)
		}
	default:
		var s string
		if err := json.Unmarshal(js, &s); err != nil || s != strings.ToValidUTF8(string(w.raw), "\ufffd") && s != string([]rune(string(w.raw))) {
			return engine.Fail("json", "%v became %s (%v)", v, js, err)
		}
		var back sqltypes.Value
		bj, _ := json.Marshal(w.raw)
		if w.raw == nil {
			bj = []byte(`""`)
		}
		if err := json.Unmarshal(bj, &back); err != nil || back.Type() != sqltypes.VarBinary || !bytes.Equal(back.Raw(), w.raw) {
			return engine.Fail("json", "%s became %v (%v)", bj, back, err)
		}
	}
	t.Evals(10)
	return nil
}

// refuse: a text that is no number of the type is refused.
func checkRange(t *engine.T) *engine.Failure {
	types := []querypb.Type{sqltypes.Int8, sqltypes.Int16, sqltypes.Int24, sqltypes.Int32, sqltypes.Int64, sqltypes.Uint8, sqltypes.Uint16, sqltypes.Uint24, sqltypes.Uint32, sqltypes.Uint64, sqltypes.Year, sqltypes.Float32, sqltypes.Float64, sqltypes.Decimal, sqltypes.Text, sqltypes.Blob, sqltypes.VarChar, sqltypes.VarBinary, sqltypes.Char, sqltypes.Binary, sqltypes.Bit, sqltypes.Enum, sqltypes.Set, sqltypes.Geometry, sqltypes.TypeJSON, sqltypes.Date, sqltypes.Datetime, sqltypes.Time, sqltypes.Timestamp, sqltypes.Null, querypb.Type_TUPLE, sqltypes.Expression}
	typ := engine.Pick(t, types)
	text := engine.Pick(t, []string{"0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.5", "1e3", "abc", "", " 1", "1 ", "--1", "0x10", "'", "1e999", "+5"})
	t.Logf("%v %q", typ, text)
	t.Sample(fmt.Sprintf("%v %q", typ, text))
	t.NonTrivial(fmt.Sprintf("%v %q", typ, text))
	var ok bool
	switch typ {
	case sqltypes.Int8, sqltypes.Int16, sqltypes.Int24, sqltypes.Int32, sqltypes.Int64:
		_, err := strconv.ParseInt(text, 0, 64)
		ok = err == nil
	case sqltypes.Uint8, sqltypes.Uint16, sqltypes.Uint24, sqltypes.Uint32, sqltypes.Uint64, sqltypes.Year:
		_, err := strconv.ParseUint(text, 0, 64)
		ok = err == nil
	case sqltypes.Float32, sqltypes.Float64, sqltypes.Decimal:
		_, err := strconv.ParseFloat(text, 64)
		ok = err == nil
	case querypb.Type_TUPLE, sqltypes.Expression:
	default:
		ok = true
	}
	v, err := sqltypes.NewValue(typ, []byte(text))
	if (err == nil) != ok {
		return engine.Fail("range", "NewValue(%v, %q) = %v, %v", typ, text, v, err)
	}
	if err := sqltypes.ValidateBindVariable(&querypb.BindVariable{Type: typ, Value: []byte(text)}); typ != querypb.Type_TUPLE && (err == nil) != ok {
		return engine.Fail("validate", "ValidateBindVariable(%v, %q): %v", typ, text, err)
	}
	inTuple := &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{{Type: sqltypes.Int64, Value: []byte("1")}, {Type: typ, Value: []byte(text)}}}
	if err := sqltypes.ValidateBindVariable(inTuple); (err == nil) != ok {
		return engine.Fail("validate", "ValidateBindVariable of a tuple with (%v, %q): %v", typ, text, err)
	}
	if ok && (typ != sqltypes.Null) && (v.Type() != typ || string(v.Raw()) != text) {
		return engine.Fail("new-value", "NewValue(%v, %q) = %v", typ, text, v)
	}
	num := sqltypes.IsIntegral(typ) || sqltypes.IsFloat(typ) || typ == sqltypes.Decimal
	if sqltypes.IsQuoted(typ) == (num || typ == sqltypes.Null || typ == querypb.Type_TUPLE || typ == sqltypes.Expression) {
		return engine.Fail("quoted", "IsQuoted(%v)", typ)
	}
	if ok && !num && typ != sqltypes.Null {
		var buf bytes.Buffer
		v.EncodeSQL(&buf)
		w := val{text, sqltypes.VarChar, []byte(text)}
		if f := w.readBack(buf.String()); f != nil {
			return f
		}
	}
	n, err := sqltypes.NewIntegral(text)
	_, e1 := strconv.ParseInt(text, 0, 64)
	u, e2 := strconv.ParseUint(text, 0, 64)
	switch {
	case e1 == nil:
		i, _ := strconv.ParseInt(text, 0, 64)
		if err != nil || n.Type() != sqltypes.Int64 || string(n.Raw()) != fmt.Sprint(i) {
			return engine.Fail("integral", "NewIntegral(%q) = %v, %v", text, n, err)
		}
	case e2 == nil:
		if err != nil || n.Type() != sqltypes.Uint64 || string(n.Raw()) != fmt.Sprint(u) {
			return engine.Fail("integral", "NewIntegral(%q) = %v, %v", text, n, err)
		}
	case err == nil:
		return engine.Fail("integral", "NewIntegral(%q) = %v", text, n)
	}
	return nil
}

// encodeTuples: rows and conditions encoded for insertion into a query.
func encodeTuples(t *engine.T) *engine.Failure {
	cols, rows := t.Range(1, 3), t.Range(1, 3)
	var names []sqlparser.ColIdent
	for i := 0; i < cols; i++ {
		names = append(names, sqlparser.NewColIdent(engine.Pick(t, []string{"a", "b", "select", "my col", "C", "ba`ck"})))
	}
	var want [][]val
	var vals [][]sqltypes.Value
	for i := 0; i < rows; i++ {
		var w []val
		var vs []sqltypes.Value
		for j := 0; j < cols; j++ {
			x := genVal(t)
			if n, ok := x.native.(int); ok {
				x.native = int64(n)
			}
			v, err := sqltypes.InterfaceToValue(x.native)
			if err != nil {
				return engine.Fail("value", "%s: %v", show(x.native), err)
			}
			w, vs = append(w, x), append(vs, v)
		}
		want, vals = append(want, w), append(vals, vs)
	}
	var buf bytes.Buffer
	sqlparser.InsertValues(vals).EncodeSQL(&buf)
	t.Logf("rows: %s", buf.String())
	t.Sample(buf.String())
	if cols*rows > 1 {
		t.NonTrivial(buf.String())
	}
	stmt, f := parseQ("an INSERT with encoded rows", "insert into t values "+buf.String())
	if f != nil {
		return f
	}
	got, ok := stmt.(*sqlparser.Insert).Rows.(sqlparser.Values)
	if !ok || len(got) != rows {
		return engine.Fail("rows", "%d rows became %d", rows, len(got))
	}
	for i, r := range got {
		if len(r) != cols {
			return engine.Fail("rows", "%d values became %d", cols, len(r))
		}
		for j, e := range r {
			if f := want[i][j].isExpr(e, buf.String()); f != nil {
				return f
			}
		}
	}
	// conditions
	buf.Reset()
	(&sqlparser.TupleEqualityList{Columns: names, Rows: vals}).EncodeSQL(&buf)
	t.Logf("condition: %s", buf.String())
	stmt, f = parseQ("a condition on encoded rows", "select 1 from t where "+buf.String())
	if f != nil {
		return f
	}
	var conds [][]sqlparser.Expr
	e := stmt.(*sqlparser.Select).Where.Expr
	if cols == 1 {
		c, ok := e.(*sqlparser.ComparisonExpr)
		if !ok || c.Operator != "in" || !isCol(c.Left, names[0]) {
			return engine.Fail("condition", "condition %s", buf.String())
		}
		tup, ok := c.Right.(sqlparser.ValTuple)
		if !ok {
			return engine.Fail("condition", "condition %s", buf.String())
		}
		for _, x := range tup {
			conds = append(conds, []sqlparser.Expr{x})
		}
	} else {
		var ors []sqlparser.Expr
		for {
			o, ok := e.(*sqlparser.OrExpr)
			if !ok {
				ors = append([]sqlparser.Expr{e}, ors...)
				break
			}
			ors = append([]sqlparser.Expr{o.Right}, ors...)
			e = o.Left
		}
		for _, o := range ors {
			p, ok := o.(*sqlparser.ParenExpr)
			if !ok {
				return engine.Fail("condition", "condition %s", buf.String())
			}
			e = p.Expr
			var row []sqlparser.Expr
			for i := cols - 1; i >= 0; i-- {
				x := e
				if i > 0 {
					a, ok := e.(*sqlparser.AndExpr)
					if !ok {
						return engine.Fail("condition", "condition %s", buf.String())
					}
					x, e = a.Right, a.Left
				}
				c, ok := x.(*sqlparser.ComparisonExpr)
				if !ok || c.Operator != "=" || !isCol(c.Left, names[i]) {
					return engine.Fail("condition", "condition %s", buf.String())
				}
				row = append([]sqlparser.Expr{c.Right}, row...)
			}
			conds = append(conds, row)
		}
	}
	if len(conds) != rows {
		return engine.Fail("condition", "%d rows became %d: %s", rows, len(conds), buf.String())
	}
	for i, r := range conds {
		for j, x := range r {
			if f := want[i][j].isExpr(x, buf.String()); f != nil {
				return f
			}
		}
	}
	t.Evals(2)
	return nil
}

func isCol(e sqlparser.Expr, n sqlparser.ColIdent) bool {
	c, ok := e.(*sqlparser.ColName)
	return ok && c.Name.Equal(n) && c.Qualifier.IsEmpty()
}

// resolve: lists of plan values give the rows they stand for.
func resolveRows(t *engine.T) *engine.Failure {
	vars := map[string]*querypb.BindVariable{}
	n := t.Range(1, 3)
	var pvs []sqltypes.PlanValue
	var want [][]sqltypes.Value // per column; length 1: the same in every row
	count := -1
	mismatch, missing := false, false
	value := func() sqltypes.Value {
		v, _ := sqltypes.InterfaceToValue(engine.Pick(t, []interface{}{int64(1), "a'b", []byte("\x00"), uint64(9), 1.5}))
		return v
	}
	for i := 0; i < n; i++ {
		key := fmt.Sprintf("k%d", i)
		rows := engine.Pick(t, []int{2, 2, 2, 1, 3})
		switch t.N(5) {
		case 0:
			v := value()
			pvs, want = append(pvs, sqltypes.PlanValue{Value: v}), append(want, []sqltypes.Value{v})
		case 1:
			v := value()
			vars[key] = sqltypes.ValueBindVariable(v)
			pvs, want = append(pvs, sqltypes.PlanValue{Key: key}), append(want, []sqltypes.Value{v})
		case 2:
			pvs, want = append(pvs, sqltypes.PlanValue{}), append(want, []sqltypes.Value{sqltypes.NULL})
		case 3, 4:
			var vs []sqltypes.Value
			if t.Bool() {
				bv := &querypb.BindVariable{Type: querypb.Type_TUPLE}
				for j := 0; j < rows; j++ {
					v := value()
					vs = append(vs, v)
					bv.Values = append(bv.Values, sqltypes.ValueToProto(v))
				}
				vars[key] = bv
				pvs = append(pvs, sqltypes.PlanValue{ListKey: key})
			} else {
				var l []sqltypes.PlanValue
				for j := 0; j < rows; j++ {
					v := value()
					vs = append(vs, v)
					if t.Bool() {
						k := fmt.Sprintf("%s_%d", key, j)
						vars[k] = sqltypes.ValueBindVariable(v)
						l = append(l, sqltypes.PlanValue{Key: k})
					} else {
						l = append(l, sqltypes.PlanValue{Value: v})
					}
				}
				pvs = append(pvs, sqltypes.PlanValue{Values: l})
			}
			want = append(want, vs)
			if count >= 0 && count != rows {
				mismatch = true
			}
			count = rows
			if l, err := pvs[i].ResolveList(vars); err != nil || !reflect.DeepEqual(l, vs) {
				return engine.Fail("list", "resolved to %v (%v), want %v", l, err, vs)
			}
			if _, err := pvs[i].ResolveValue(vars); err == nil {
				return engine.Fail("list", "a list resolved to one value")
			}
			continue
		}
		if v, err := pvs[i].ResolveValue(vars); err != nil || !reflect.DeepEqual(v, want[i][0]) {
			return engine.Fail("single", "resolved to %v (%v), want %v", v, err, want[i][0])
		}
		if _, err := pvs[i].ResolveList(vars); err == nil {
			return engine.Fail("single", "a single value resolved to a list")
		}
	}
	if len(vars) > 0 && t.Chance(15) {
		for k := range vars {
			if strings.Contains(k, "_") {
				continue
			}
			missing = true
		}
		if missing {
			for k := range vars {
				if !strings.Contains(k, "_") {
					delete(vars, k)
				}
			}
		}
	}
	if count < 0 {
		count = 1
	}
	t.Logf("%v with %v", pvs, vars)
	t.Sample(fmt.Sprint(pvs))
	if n > 1 {
		t.NonTrivial(fmt.Sprint(pvs, vars))
	}
	rows, err := sqltypes.ResolveRows(pvs, vars)
	if mismatch || missing {
		if err == nil {
			return engine.Fail("rows-accepted", "lists of different lengths or missing values gave %v", rows)
		}
		return nil
	}
	if err != nil || len(rows) != count {
		return engine.Fail("rows", "resolved to %v (%v), want %d rows", rows, err, count)
	}
	for i, r := range rows {
		if len(r) != n {
			return engine.Fail("rows", "row %d is %v", i, r)
		}
		for j, v := range r {
			w := want[j][0]
			if len(want[j]) == count && count > 1 {
				w = want[j][i]
			}
			if !reflect.DeepEqual(v, w) {
				return engine.Fail("rows", "row %d is %v, want column %d to be %v", i, r, j, w)
			}
		}
	}
	t.Evals(2)
	return nil
}

// lists: slices become tuples of their elements.
func buildLists(t *engine.T) *engine.Failure {
	n := t.N(4)
	var in interface{}
	var want []val
	kind := t.N(7)
	switch kind {
	case 0:
		x := []interface{}{}
		for i := 0; i < n; i++ {
			w := genVal(t)
			x, want = append(x, w.native), append(want, w)
		}
		in = x
	case 1:
		x := []string{}
		for i := 0; i < n; i++ {
			b := genBytes(t)
			x, want = append(x, string(b)), append(want, val{string(b), sqltypes.VarChar, b})
		}
		in = x
	case 2:
		x := [][]byte{}
		for i := 0; i < n; i++ {
			b := genBytes(t)
			x, want = append(x, b), append(want, val{b, sqltypes.VarBinary, b})
		}
		in = x
	case 3:
		x := []int{}
		for i := 0; i < n; i++ {
			v := int(genInt(t))
			x, want = append(x, v), append(want, val{v, sqltypes.Int64, []byte(strconv.Itoa(v))})
		}
		in = x
	case 4:
		x := []int64{}
		for i := 0; i < n; i++ {
			v := genInt(t)
			x, want = append(x, v), append(want, val{v, sqltypes.Int64, []byte(fmt.Sprint(v))})
		}
		in = x
	case 5:
		x := []uint64{}
		for i := 0; i < n; i++ {
			v := uint64(genInt(t))
			x, want = append(x, v), append(want, val{v, sqltypes.Uint64, []byte(fmt.Sprint(v))})
		}
		in = x
	default:
		x := []float64{}
		for i := 0; i < n; i++ {
			v := genFloat(t)
			x, want = append(x, v), append(want, val{v, sqltypes.Float64, nil})
		}
		in = x
	}
	t.Logf("%s", show(in))
	t.Sample(show(in))
	if n > 1 {
		t.NonTrivial(show(in))
	}
	m, err := sqltypes.BuildBindVariables(map[string]interface{}{"k": in})
	if err != nil {
		return engine.Fail("list", "%s: %v", show(in), err)
	}
	bv := m["k"]
	if bv == nil || bv.Type != querypb.Type_TUPLE || len(bv.Values) != n {
		return engine.Fail("list", "%s became %v", show(in), bv)
	}
	for i, v := range bv.Values {
		if !want[i].is(v.Type, v.Value) {
			return engine.Fail("list", "element %d of %s became %v %q", i, show(in), v.Type, v.Value)
		}
	}
	if err := sqltypes.ValidateBindVariable(bv); (err == nil) != (n > 0) {
		return engine.Fail("list-valid", "ValidateBindVariable(%s): %v", show(in), err)
	}
	if _, err := sqltypes.BindVariableToValue(bv); err == nil {
		return engine.Fail("list", "a tuple became a value")
	}
	if c := sqltypes.CopyBindVariables(m); !sqltypes.BindVariablesEqual(c, m) {
		return engine.Fail("copy", "the copy of %v differs", m)
	}
	if n == 0 {
		return nil
	}
	pq := sqlparser.BuildParsedQuery("select 1 from t where a in %a", "::k")
	q, err := pq.GenerateQuery(m, nil)
	if err != nil {
		return engine.Fail("generate", "%v", err)
	}
	stmt, f := parseQ("a query with an encoded list", string(q))
	if f != nil {
		return f
	}
	tup, ok := stmt.(*sqlparser.Select).Where.Expr.(*sqlparser.ComparisonExpr).Right.(sqlparser.ValTuple)
	if !ok || len(tup) != n {
		return engine.Fail("generate", "%s became %s", show(in), q)
	}
	for i, e := range tup {
		if f := want[i].isExpr(e, string(q)); f != nil {
			return f
		}
	}
	t.Evals(3)
	return nil
}

// setValues: what a SET statement assigns is what ExtractSetValues reports.
func setValues(t *engine.T) *engine.Failure {
	type key struct{ k, s string }
	want := map[key]interface{}{}
	text := "set "
	scope := engine.Pick(t, []string{"", "", "session ", "global "})
	text += scope
	n := t.Range(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ", "
		}
		name := engine.Pick(t, []string{"autocommit", "Wait_Timeout", "sql_mode", "a_1", "foreign_key_checks"})
		k := key{strings.ToLower(name), "session"}
		if scope == "" && t.Chance(40) {
			switch t.N(4) {
			case 0:
				name = "@@" + name
			case 1:
				name = "@@session." + name
			case 2:
				name, k.s = "@@global."+name, "global"
			default:
				name = "@@session.`" + name + "`"
			}
		}
		text += name + engine.Pick(t, []string{" = ", "="})
		switch t.N(7) {
		case 0:
			s := genBytes(t)
			var b bytes.Buffer
			sqltypes.NewVarBinary(string(s)).EncodeSQL(&b)
			text += b.String()
			want[k] = strings.ToLower(string(s))
		case 1:
			i := genInt(t)
			text += fmt.Sprint(i)
			want[k] = i
		case 2:
			text += "true"
			want[k] = int64(1)
		case 3:
			text += "FALSE"
			want[k] = int64(0)
		case 4:
			text += "Strict_x"
			want[k] = "Strict_x"
		case 5:
			text += "null"
			want[k] = nil
		default:
			text += "default"
			want[k] = "default"
		}
	}
	t.Logf("%s", text)
	t.Sample(text)
	if n > 1 {
		t.NonTrivial(text)
	}
	got, sc, err := sqlparser.ExtractSetValues(text)
	if err != nil {
		return engine.Fail("error", "ExtractSetValues(%q): %v", text, err)
	}
	if sc != strings.TrimSpace(scope) {
		return engine.Fail("scope", "ExtractSetValues(%q): scope %q", text, sc)
	}
	if len(got) != len(want) {
		return engine.Fail("values", "ExtractSetValues(%q) = %v", text, got)
	}
	for k, v := range want {
		if g, ok := got[sqlparser.SetKey{Key: k.k, Scope: k.s}]; !ok || !reflect.DeepEqual(g, v) {
			return engine.Fail("values", "ExtractSetValues(%q): %v = %#v, want %#v", text, k, g, v)
		}
	}
	return nil
}

func guarded(what string, run func(*engine.T) *engine.Failure) func(*engine.T) *engine.Failure {
	return func(t *engine.T) (f *engine.Failure) {
		if g := engine.Guard(what, func() { f = run(t) }); g != nil {
			return g
		}
		return f
	}
}

func init() {
	engine.Register(&engine.Check{ID: "C21",
		Rule: "a case is a value (or list, row, condition, SET statement) converted and read back; non-trivial: more than one byte or element, distinct by content",
		Parts: []engine.Part{
			{Name: "values", Quick: 150000, Thorough: 10000000, Run: encodeValues},
			{Name: "ranges", Quick: 20000, Thorough: 500000, Run: guarded("converting", checkRange)},
			{Name: "tuples", Quick: 60000, Thorough: 5000000, Run: guarded("encoding", encodeTuples)},
			{Name: "lists", Quick: 60000, Thorough: 5000000, Run: guarded("converting", buildLists)},
			{Name: "rows", Quick: 60000, Thorough: 5000000, Run: guarded("resolving", resolveRows)},
			{Name: "set", Quick: 40000, Thorough: 2000000, Run: guarded("reading SET", setValues)},
		}})
}
