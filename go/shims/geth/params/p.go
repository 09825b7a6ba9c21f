// Package params stands in for the protocol parameters of go-ethereum.
package params

import "math/big"

const (
	CallCreateDepth           uint64 = 1024
	CallValueTransferGas      uint64 = 9000
	CallNewAccountGas         uint64 = 25000
	CallStipend               uint64 = 2300
	CreateGas                 uint64 = 32000
	CreateDataGas             uint64 = 200
	MemoryGas                 uint64 = 3
	SstoreSetGasEIP2200       uint64 = 20000
	SstoreResetGasEIP2200     uint64 = 5000
	TxGas                     uint64 = 21000
	TxGasContractCreation     uint64 = 53000
	TxDataZeroGas             uint64 = 4
	TxDataNonZeroGasEIP2028   uint64 = 16
	TxDataNonZeroGasFrontier  uint64 = 68
	TxAccessListAddressGas    uint64 = 2400
	TxAccessListStorageKeyGas uint64 = 1900
	RefundQuotient            uint64 = 2
	RefundQuotientEIP3529     uint64 = 5
	MaxCodeSize                      = 24576
	MaxInitCodeSize                  = 2 * MaxCodeSize
	StackLimit                uint64 = 1024
)

// ChainConfig tells from when on rules apply.
type ChainConfig struct {
	ChainID *big.Int

	HomesteadBlock      *big.Int
	EIP150Block         *big.Int
	EIP155Block         *big.Int
	EIP158Block         *big.Int
	ByzantiumBlock      *big.Int
	ConstantinopleBlock *big.Int
	PetersburgBlock     *big.Int
	IstanbulBlock       *big.Int
	MuirGlacierBlock    *big.Int
	BerlinBlock         *big.Int
	LondonBlock         *big.Int
	ArrowGlacierBlock   *big.Int
	GrayGlacierBlock    *big.Int
	MergeNetsplitBlock  *big.Int

	ShanghaiTime *uint64
	CancunTime   *uint64
	PragueTime   *uint64
	VerkleTime   *uint64

	TerminalTotalDifficulty       *big.Int
	TerminalTotalDifficultyPassed bool
}

// AllEthashProtocolChanges has all changes before the merge.
var AllEthashProtocolChanges = &ChainConfig{
	ChainID: big.NewInt(1337), HomesteadBlock: new(big.Int), EIP150Block: new(big.Int), EIP155Block: new(big.Int), EIP158Block: new(big.Int),
	ByzantiumBlock: new(big.Int), ConstantinopleBlock: new(big.Int), PetersburgBlock: new(big.Int), IstanbulBlock: new(big.Int), MuirGlacierBlock: new(big.Int),
	BerlinBlock: new(big.Int), LondonBlock: new(big.Int), ArrowGlacierBlock: new(big.Int), GrayGlacierBlock: new(big.Int),
}

func from(s, num *big.Int) bool { return s != nil && num != nil && s.Cmp(num) <= 0 }

func since(s *uint64, t uint64) bool { return s != nil && *s <= t }

func (c *ChainConfig) IsHomestead(n *big.Int) bool      { return from(c.HomesteadBlock, n) }
func (c *ChainConfig) IsEIP150(n *big.Int) bool         { return from(c.EIP150Block, n) }
func (c *ChainConfig) IsEIP158(n *big.Int) bool         { return from(c.EIP158Block, n) }
func (c *ChainConfig) IsByzantium(n *big.Int) bool      { return from(c.ByzantiumBlock, n) }
func (c *ChainConfig) IsConstantinople(n *big.Int) bool { return from(c.ConstantinopleBlock, n) }
func (c *ChainConfig) IsIstanbul(n *big.Int) bool       { return from(c.IstanbulBlock, n) }
func (c *ChainConfig) IsBerlin(n *big.Int) bool         { return from(c.BerlinBlock, n) }
func (c *ChainConfig) IsLondon(n *big.Int) bool         { return from(c.LondonBlock, n) }
func (c *ChainConfig) IsShanghai(n *big.Int, t uint64) bool {
	return c.IsLondon(n) && since(c.ShanghaiTime, t)
}
func (c *ChainConfig) IsCancun(n *big.Int, t uint64) bool {
	return c.IsLondon(n) && since(c.CancunTime, t)
}

// Rules are the rules of a block.
type Rules struct {
	ChainID                                                 *big.Int
	IsHomestead, IsEIP150, IsEIP155, IsEIP158               bool
	IsEIP2929, IsEIP4762                                    bool
	IsByzantium, IsConstantinople, IsPetersburg, IsIstanbul bool
	IsBerlin, IsLondon                                      bool
	IsMerge, IsShanghai, IsCancun, IsPrague                 bool
	IsVerkle                                                bool
}

func (c *ChainConfig) Rules(num *big.Int, isMerge bool, timestamp uint64) Rules {
	id := c.ChainID
	if id == nil {
		id = new(big.Int)
	}
	isMerge = isMerge && c.IsLondon(num)
	return Rules{
		ChainID: new(big.Int).Set(id), IsHomestead: c.IsHomestead(num), IsEIP150: c.IsEIP150(num), IsEIP155: from(c.EIP155Block, num), IsEIP158: c.IsEIP158(num),
		IsByzantium: c.IsByzantium(num), IsConstantinople: c.IsConstantinople(num), IsPetersburg: from(c.PetersburgBlock, num), IsIstanbul: c.IsIstanbul(num),
		IsBerlin: c.IsBerlin(num), IsEIP2929: c.IsBerlin(num), IsLondon: c.IsLondon(num),
		IsMerge: isMerge, IsShanghai: isMerge && c.IsShanghai(num, timestamp), IsCancun: isMerge && c.IsCancun(num, timestamp),
	}
}
