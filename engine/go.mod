module gosym

go 1.26.0

require (
	github.com/mr-tron/base58 v1.2.0
	golang.org/x/crypto v0.23.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
)
