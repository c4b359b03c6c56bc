// Package pq stands in for github.com/lib/pq in the verification harness:
// it registers the "postgres" driver and hands every call to the simulated
// server (see fakedrv). Only the driver registration and the quoting helpers
// of the real package are provided.
package pq

import (
	"database/sql"
	"strings"

	"verif.local/fakedrv"
)

func init() { sql.Register("postgres", fakedrv.New("postgres")) }

// QuoteIdentifier quotes an identifier the way lib/pq does.
func QuoteIdentifier(name string) string {
	if end := strings.IndexRune(name, 0); end > -1 {
		name = name[:end]
	}
	return `"` + strings.Replace(name, `"`, `""`, -1) + `"`
}

// QuoteLiteral quotes a literal the way lib/pq does.
func QuoteLiteral(literal string) string {
	literal = strings.Replace(literal, `'`, `''`, -1)
	if strings.Contains(literal, `\`) {
		literal = strings.Replace(literal, `\`, `\\`, -1)
		return ` E'` + literal + `'`
	}
	return `'` + literal + `'`
}
