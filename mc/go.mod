module verif/mc

go 1.22

require github.com/thedonutfactory/go-tfhe v0.0.0

replace github.com/thedonutfactory/go-tfhe => /repo
