module verifharness

go 1.21

require github.com/manhcuongbk56/cypher-go-dsl v0.0.0

require (
	github.com/rs/xid v1.2.1 // indirect
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 // indirect
)

replace github.com/manhcuongbk56/cypher-go-dsl => /repo
