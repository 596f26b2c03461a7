module verifharness

go 1.23

require (
	github.com/ilius/go-table v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/ilius/go-lru v0.1.0 // indirect

replace github.com/ilius/go-table => /repo
