module verifharness

go 1.23

require (
	github.com/signintech/pdft v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/signintech/pdft => /repo
