module github.com/nanobus/iota/go/verifharness

go 1.26.0

require (
	github.com/nanobus/iota/go v0.0.0
	github.com/nanobus/iota/go/types/uuid v0.0.0
	github.com/tetratelabs/wabin v0.0.0-20220927005300-3b0fbf39a46a
	github.com/tetratelabs/wazero v1.0.0-pre.8
	pgregory.net/rapid v1.3.0
)

require (
	github.com/fatih/color v1.13.0 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.17 // indirect
	github.com/rodaine/table v1.1.0 // indirect
	golang.org/x/exp v0.0.0-20221230185412-738e83a70c30 // indirect
	golang.org/x/sys v0.3.0 // indirect
)

replace github.com/nanobus/iota/go => /repo

replace github.com/nanobus/iota/go/types/uuid => /repo/types/uuid
