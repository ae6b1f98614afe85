module verif/harness

go 1.23

require (
	github.com/akm/tparser v0.0.0
	github.com/pkg/errors v0.9.1
	golang.org/x/text v0.3.7
	pgregory.net/rapid v1.3.0
)

require (
	github.com/philopon/go-toposort v0.0.0-20170620085441-9be86dbd762f // indirect
)

replace github.com/akm/tparser => /repo
