module xv

go 1.15

require (
	github.com/xuri/xgen v0.0.0
	golang.org/x/net v0.7.0
)

replace github.com/xuri/xgen => /repo
