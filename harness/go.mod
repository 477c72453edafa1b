module verif/harness

go 1.23

require (
	github.com/moggle-mog/goav v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/moggle-mog/goav => /repo
