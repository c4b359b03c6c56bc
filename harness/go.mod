module verif.local/harness

go 1.21

require (
	github.com/denisenkom/go-mssqldb v0.10.0
	github.com/go-sql-driver/mysql v1.6.0
	github.com/k0kubun/sqldef v0.0.0
	github.com/lib/pq v1.10.2
	github.com/mattn/go-sqlite3 v1.14.7
	verif.local/fakedrv v0.0.0
)

replace (
	github.com/denisenkom/go-mssqldb => ./fake/mssql
	github.com/go-sql-driver/mysql => ./fake/mysql
	github.com/k0kubun/sqldef => /repo
	github.com/lib/pq => ./fake/pq
	verif.local/fakedrv => ./fakedrv
)
