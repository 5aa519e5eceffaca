module github.com/itstarsun/go-thrift/verifharness

go 1.26.0

require (
	github.com/itstarsun/go-thrift v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/itstarsun/go-thrift => /repo
