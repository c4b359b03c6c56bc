package query

import (
	"fmt"
	"reflect"

	"github.com/k0kubun/sqldef/sqlparser"
)

// Pairs walks two trees in step. val sees every pair of values, list every
// tuple that became a list variable. Any other difference is described.
func Pairs(a, b interface{}, val func(a, b *sqlparser.SQLVal), list func(a sqlparser.ValTuple, b sqlparser.ListArg)) string {
	return pairs(reflect.ValueOf(a), reflect.ValueOf(b), val, list)
}

func pairs(a, b reflect.Value, val func(a, b *sqlparser.SQLVal), list func(a sqlparser.ValTuple, b sqlparser.ListArg)) string {
	if a.IsValid() != b.IsValid() {
		return "one side is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		t, ok := a.Interface().(sqlparser.ValTuple)
		l, ok2 := b.Interface().(sqlparser.ListArg)
		if ok && ok2 {
			list(t, l)
			return ""
		}
		return fmt.Sprintf("%v became %v", a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return "one side is missing"
		}
		return pairs(a.Elem(), b.Elem(), val, list)
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return "one side is missing"
		}
		if a.IsNil() {
			return ""
		}
		if x, ok := a.Interface().(*sqlparser.SQLVal); ok {
			val(x, b.Interface().(*sqlparser.SQLVal))
			return ""
		}
		if o, ok := a.Interface().(*sqlparser.Order); ok {
			// directions of ORDER BY NULL and RAND() are dropped
			return pairs(reflect.ValueOf(o.Expr), reflect.ValueOf(b.Interface().(*sqlparser.Order).Expr), val, list)
		}
		return pairs(a.Elem(), b.Elem(), val, list)
	case reflect.Struct:
		switch a.Interface().(type) {
		case sqlparser.ColIdent, sqlparser.TableIdent:
			if s, u := fmt.Sprint(a.Interface()), fmt.Sprint(b.Interface()); s != u {
				return s + " became " + u
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Name == "Metadata" {
				continue
			}
			if d := pairs(a.Field(i), b.Field(i), val, list); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return "lists differ in length"
		}
		for i := 0; i < a.Len(); i++ {
			if d := pairs(a.Index(i), b.Index(i), val, list); d != "" {
				return d
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%v became %v", a.Interface(), b.Interface())
		}
	}
	return ""
}

// Values lists the values and list variables of a tree.
func Values(n interface{}, val func(*sqlparser.SQLVal), list func(sqlparser.ListArg)) {
	values(reflect.ValueOf(n), val, list)
}

func values(a reflect.Value, val func(*sqlparser.SQLVal), list func(sqlparser.ListArg)) {
	if !a.IsValid() {
		return
	}
	switch a.Kind() {
	case reflect.Interface:
		values(a.Elem(), val, list)
	case reflect.Ptr:
		if a.IsNil() {
			return
		}
		if x, ok := a.Interface().(*sqlparser.SQLVal); ok {
			val(x)
			return
		}
		values(a.Elem(), val, list)
	case reflect.Struct:
		switch a.Interface().(type) {
		case sqlparser.ColIdent, sqlparser.TableIdent:
			return
		}
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath == "" && f.Name != "Metadata" {
				values(a.Field(i), val, list)
			}
		}
	case reflect.Slice:
		if l, ok := a.Interface().(sqlparser.ListArg); ok {
			list(l)
			return
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < a.Len(); i++ {
			values(a.Index(i), val, list)
		}
	}
}
