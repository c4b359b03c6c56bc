// Package mssql stands in for github.com/denisenkom/go-mssqldb in the
// verification harness (see fakedrv).
package mssql

import (
	"database/sql"

	"verif.local/fakedrv"
)

func init() {
	sql.Register("mssql", fakedrv.New("mssql"))
	sql.Register("sqlserver", fakedrv.New("sqlserver"))
}
