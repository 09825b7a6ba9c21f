module github.com/ethereum/go-ethereum

go 1.22

require (
	golang.org/x/crypto v0.0.0
	github.com/holiman/uint256 v0.0.0
)
