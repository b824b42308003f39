module gosym

go 1.26.0

require (
	github.com/consensys/gurvy v0.3.6-0.20201201225406-c45cdb55aaef
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
)
