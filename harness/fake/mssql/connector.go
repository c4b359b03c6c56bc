package mssql

import (
	"context"
	"database/sql/driver"

	"verif.local/fakedrv"
)

// Connector connects to the simulated server.
type Connector struct{ dsn string }

// NewConnector makes a Connector.
func NewConnector(dsn string) (*Connector, error) { return &Connector{dsn}, nil }

// Connect implements driver.Connector.
func (c *Connector) Connect(ctx context.Context) (driver.Conn, error) {
	return fakedrv.New("sqlserver").Open(c.dsn)
}

// Driver implements driver.Connector.
func (c *Connector) Driver() driver.Driver { return fakedrv.New("sqlserver") }
