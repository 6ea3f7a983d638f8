module verif

go 1.24

require (
	github.com/thedonutfactory/go-tfhe v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/thedonutfactory/go-tfhe => /repo
