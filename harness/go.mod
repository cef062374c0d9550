module verif/harness

go 1.23

require (
	github.com/textwire/textwire/v2 v2.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

replace github.com/textwire/textwire/v2 => /repo
