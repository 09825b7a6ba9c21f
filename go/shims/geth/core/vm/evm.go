package vm

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

// What follows stands in for the message processing of go-ethereum 1.14 and
// the extensions of Sonic's fork (exchangeable interpreters, precompiled
// contracts with access to the state, depth in the hands of the interpreter).

var (
	ErrOutOfGas                 = errors.New("out of gas")
	ErrCodeStoreOutOfGas        = errors.New("contract creation code storage out of gas")
	ErrDepth                    = errors.New("max call depth exceeded")
	ErrInsufficientBalance      = errors.New("insufficient balance for transfer")
	ErrContractAddressCollision = errors.New("contract address collision")
	ErrExecutionReverted        = errors.New("execution reverted")
	ErrMaxCodeSizeExceeded      = errors.New("max code size exceeded")
	ErrMaxInitCodeSizeExceeded  = errors.New("max initcode size exceeded")
	ErrInvalidJump              = errors.New("invalid jump destination")
	ErrWriteProtection          = errors.New("write protection")
	ErrReturnDataOutOfBounds    = errors.New("return data out of bounds")
	ErrGasUintOverflow          = errors.New("gas uint64 overflow")
	ErrInvalidCode              = errors.New("invalid code: must not begin with 0xef")
	ErrNonceUintOverflow        = errors.New("nonce uint64 overflow")
)

type ErrStackUnderflow struct{ stackLen, required int }

func (e *ErrStackUnderflow) Error() string {
	return fmt.Sprintf("stack underflow (%d <=> %d)", e.stackLen, e.required)
}

type ErrStackOverflow struct{ stackLen, limit int }

func (e *ErrStackOverflow) Error() string {
	return fmt.Sprintf("stack limit reached %d (%d)", e.stackLen, e.limit)
}

type ErrInvalidOpCode struct{ opcode byte }

func (e *ErrInvalidOpCode) Error() string { return fmt.Sprintf("invalid opcode: %x", e.opcode) }

type StateDB interface {
	CreateAccount(common.Address)
	CreateContract(common.Address)
	SubBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	AddBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	GetBalance(common.Address) *uint256.Int
	GetNonce(common.Address) uint64
	SetNonce(common.Address, uint64)
	GetCodeHash(common.Address) common.Hash
	GetCode(common.Address) []byte
	SetCode(common.Address, []byte)
	GetCodeSize(common.Address) int
	AddRefund(uint64)
	SubRefund(uint64)
	GetRefund() uint64
	GetCommittedState(common.Address, common.Hash) common.Hash
	GetState(common.Address, common.Hash) common.Hash
	SetState(common.Address, common.Hash, common.Hash)
	GetStorageRoot(addr common.Address) common.Hash
	GetTransientState(addr common.Address, key common.Hash) common.Hash
	SetTransientState(addr common.Address, key, value common.Hash)
	SelfDestruct(common.Address)
	HasSelfDestructed(common.Address) bool
	Selfdestruct6780(common.Address)
	Exist(common.Address) bool
	Empty(common.Address) bool
	AddressInAccessList(addr common.Address) bool
	SlotInAccessList(addr common.Address, slot common.Hash) (addressOk bool, slotOk bool)
	AddAddressToAccessList(addr common.Address)
	AddSlotToAccessList(addr common.Address, slot common.Hash)
	PointCache() *utils.PointCache
	Prepare(rules params.Rules, sender, coinbase common.Address, dest *common.Address, precompiles []common.Address, txAccesses types.AccessList)
	RevertToSnapshot(int)
	Snapshot() int
	AddLog(*types.Log)
	AddPreimage(common.Hash, []byte)
	Witness() *stateless.Witness
}

type ContractRef interface{ Address() common.Address }

type AccountRef common.Address

func (ar AccountRef) Address() common.Address { return (common.Address)(ar) }

type Contract struct {
	CallerAddress common.Address
	caller        ContractRef
	self          ContractRef
	Code          []byte
	CodeHash      common.Hash
	CodeAddr      *common.Address
	Input         []byte
	IsDeployment  bool
	Gas           uint64
	value         *uint256.Int
}

func NewContract(caller ContractRef, object ContractRef, value *uint256.Int, gas uint64) *Contract {
	return &Contract{CallerAddress: caller.Address(), caller: caller, self: object, Gas: gas, value: value}
}

func (c *Contract) AsDelegate() *Contract {
	parent := c.caller.(*Contract)
	c.CallerAddress = parent.CallerAddress
	c.value = parent.value
	return c
}

func (c *Contract) Caller() common.Address  { return c.CallerAddress }
func (c *Contract) Address() common.Address { return c.self.Address() }
func (c *Contract) Value() *uint256.Int     { return c.value }

func (c *Contract) UseGas(gas uint64) bool {
	if c.Gas < gas {
		return false
	}
	c.Gas -= gas
	return true
}

func (c *Contract) SetCallCode(addr *common.Address, hash common.Hash, code []byte) {
	c.Code = code
	c.CodeHash = hash
	c.CodeAddr = addr
}

type (
	CanTransferFunc func(StateDB, common.Address, *uint256.Int) bool
	TransferFunc    func(StateDB, common.Address, common.Address, *uint256.Int)
	GetHashFunc     func(uint64) common.Hash
)

type BlockContext struct {
	CanTransfer CanTransferFunc
	Transfer    TransferFunc
	GetHash     GetHashFunc
	Coinbase    common.Address
	GasLimit    uint64
	BlockNumber *big.Int
	Time        uint64
	Difficulty  *big.Int
	BaseFee     *big.Int
	BlobBaseFee *big.Int
	Random      *common.Hash
}

type TxContext struct {
	Origin     common.Address
	GasPrice   *big.Int
	BlobHashes []common.Hash
	BlobFeeCap *big.Int
}

type Interpreter interface {
	Run(contract *Contract, input []byte, readOnly bool) (ret []byte, err error)
}

type InterpreterFactory func(evm *EVM) Interpreter

type PrecompiledStateContract interface {
	Run(stateDB StateDB, blockCtx BlockContext, txCtx TxContext, caller common.Address, input []byte, suppliedGas uint64) ([]byte, uint64, error)
}

type Config struct {
	NoBaseFee        bool
	Interpreter      InterpreterFactory
	StatePrecompiles map[common.Address]PrecompiledStateContract
}

// CallInterceptor takes over the processing of messages.
type CallInterceptor interface {
	Call(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	CallCode(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	DelegateCall(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64) ([]byte, uint64, error)
	StaticCall(env *EVM, me ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error)
	Create(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error)
	Create2(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int, salt *uint256.Int) ([]byte, common.Address, uint64, error)
}

type EVM struct {
	Context BlockContext
	TxContext
	StateDB         StateDB
	CallInterceptor CallInterceptor
	Config          Config

	depth       int
	chainConfig *params.ChainConfig
	chainRules  params.Rules
	interpreter Interpreter
}

// DefaultInterpreter decides what go-ethereum's own interpreter does.
var DefaultInterpreter func(evm *EVM) Interpreter

func NewEVM(blockCtx BlockContext, txCtx TxContext, statedb StateDB, chainConfig *params.ChainConfig, config Config) *EVM {
	evm := &EVM{Context: blockCtx, TxContext: txCtx, StateDB: statedb, Config: config, chainConfig: chainConfig, chainRules: chainConfig.Rules(blockCtx.BlockNumber, blockCtx.Random != nil, blockCtx.Time)}
	switch {
	case config.Interpreter != nil:
		evm.interpreter = config.Interpreter(evm)
	case DefaultInterpreter != nil:
		evm.interpreter = DefaultInterpreter(evm)
	default:
		evm.interpreter = &EVMInterpreter{}
	}
	return evm
}

func (evm *EVM) ChainConfig() *params.ChainConfig { return evm.chainConfig }
func (evm *EVM) Interpreter() Interpreter         { return evm.interpreter }
func (evm *EVM) GetDepth() int                    { return evm.depth }
func (evm *EVM) SetDepth(depth int)               { evm.depth = depth }

var (
	PrecompiledAddressesBerlin []common.Address
	PrecompiledAddressesCancun []common.Address
)

func init() {
	for i := byte(1); i <= 10; i++ {
		if i < 10 {
			PrecompiledAddressesBerlin = append(PrecompiledAddressesBerlin, common.Address{19: i})
		}
		PrecompiledAddressesCancun = append(PrecompiledAddressesCancun, common.Address{19: i})
	}
}

func active(rules params.Rules) map[common.Address]PrecompiledContract {
	switch {
	case rules.IsCancun:
		return PrecompiledContractsCancun
	case rules.IsBerlin:
		return PrecompiledContractsBerlin
	}
	return PrecompiledContractsIstanbul
}

// ActivePrecompiles returns the precompiles enabled with the current configuration.
func ActivePrecompiles(rules params.Rules) []common.Address {
	if rules.IsCancun {
		return PrecompiledAddressesCancun
	}
	return PrecompiledAddressesBerlin
}

func (evm *EVM) precompile(addr common.Address) (PrecompiledContract, bool) {
	p, ok := active(evm.chainRules)[addr]
	return p, ok
}

func (evm *EVM) statePrecompile(addr common.Address) (PrecompiledStateContract, bool) {
	p, ok := evm.Config.StatePrecompiles[addr]
	return p, ok
}

func RunPrecompiledContract(p PrecompiledContract, input []byte, suppliedGas uint64) (ret []byte, remainingGas uint64, err error) {
	gasCost := p.RequiredGas(input)
	if suppliedGas < gasCost {
		return nil, 0, ErrOutOfGas
	}
	suppliedGas -= gasCost
	output, err := p.Run(input)
	return output, suppliedGas, err
}

func (evm *EVM) Call(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Call(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !value.IsZero() && !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	snapshot := evm.StateDB.Snapshot()
	p, isPrecompile := evm.precompile(addr)
	sp, isStatePrecompile := evm.statePrecompile(addr)
	if !evm.StateDB.Exist(addr) {
		if !isPrecompile && !isStatePrecompile && evm.chainRules.IsEIP158 && value.IsZero() {
			return nil, gas, nil
		}
		evm.StateDB.CreateAccount(addr)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), addr, value)
	if isStatePrecompile {
		ret, gas, err = sp.Run(evm.StateDB, evm.Context, evm.TxContext, caller.Address(), input, gas)
	} else if isPrecompile {
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	} else {
		code := evm.StateDB.GetCode(addr)
		if witness := evm.StateDB.Witness(); witness != nil {
			witness.AddCode(code)
		}
		if len(code) == 0 {
			ret, err = nil, nil
		} else {
			addrCopy := addr
			contract := NewContract(caller, AccountRef(addrCopy), value, gas)
			contract.SetCallCode(&addrCopy, evm.StateDB.GetCodeHash(addrCopy), code)
			contract.Input = input
			ret, err = evm.interpreter.Run(contract, input, false)
			gas = contract.Gas
		}
	}
	if err != nil {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			gas = 0
		}
	}
	return ret, gas, err
}

// nested runs the code of addr on behalf of another account.
func (evm *EVM) nested(addr common.Address, input []byte, gas uint64, readOnly bool, contract func(gas uint64) *Contract) (ret []byte, leftOverGas uint64, err error) {
	snapshot := evm.StateDB.Snapshot()
	if readOnly {
		// the account is touched
		evm.StateDB.AddBalance(addr, new(uint256.Int), tracing.BalanceChangeTouchAccount)
	}
	if p, isPrecompile := evm.precompile(addr); isPrecompile {
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	} else {
		addrCopy := addr
		c := contract(gas)
		if witness := evm.StateDB.Witness(); witness != nil {
			witness.AddCode(evm.StateDB.GetCode(addrCopy))
		}
		c.SetCallCode(&addrCopy, evm.StateDB.GetCodeHash(addrCopy), evm.StateDB.GetCode(addrCopy))
		c.Input = input
		ret, err = evm.interpreter.Run(c, input, readOnly)
		gas = c.Gas
	}
	if err != nil {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			gas = 0
		}
	}
	return ret, gas, err
}

func (evm *EVM) CallCode(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.CallCode(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	return evm.nested(addr, input, gas, false, func(gas uint64) *Contract {
		return NewContract(caller, AccountRef(caller.Address()), value, gas)
	})
}

func (evm *EVM) DelegateCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.DelegateCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	return evm.nested(addr, input, gas, false, func(gas uint64) *Contract {
		return NewContract(caller, AccountRef(caller.Address()), nil, gas).AsDelegate()
	})
}

func (evm *EVM) StaticCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.StaticCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	return evm.nested(addr, input, gas, true, func(gas uint64) *Contract {
		return NewContract(caller, AccountRef(addr), new(uint256.Int), gas)
	})
}

func (evm *EVM) create(caller ContractRef, code []byte, gas uint64, value *uint256.Int, address common.Address) (ret []byte, createAddress common.Address, leftOverGas uint64, err error) {
	if evm.depth > int(params.CallCreateDepth) {
		return nil, common.Address{}, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, common.Address{}, gas, ErrInsufficientBalance
	}
	nonce := evm.StateDB.GetNonce(caller.Address())
	if nonce+1 < nonce {
		return nil, common.Address{}, gas, ErrNonceUintOverflow
	}
	evm.StateDB.SetNonce(caller.Address(), nonce+1)
	if evm.chainRules.IsEIP2929 {
		evm.StateDB.AddAddressToAccessList(address)
	}
	contractHash := evm.StateDB.GetCodeHash(address)
	storageRoot := evm.StateDB.GetStorageRoot(address)
	if evm.StateDB.GetNonce(address) != 0 || (contractHash != (common.Hash{}) && contractHash != types.EmptyCodeHash) ||
		(storageRoot != (common.Hash{}) && storageRoot != types.EmptyRootHash) {
		return nil, common.Address{}, 0, ErrContractAddressCollision
	}
	snapshot := evm.StateDB.Snapshot()
	if !evm.StateDB.Exist(address) {
		evm.StateDB.CreateAccount(address)
	}
	evm.StateDB.CreateContract(address)
	if evm.chainRules.IsEIP158 {
		evm.StateDB.SetNonce(address, 1)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), address, value)

	contract := NewContract(caller, AccountRef(address), value, gas)
	contract.SetCallCode(&address, crypto.Keccak256Hash(code), code)
	contract.IsDeployment = true
	ret, err = evm.interpreter.Run(contract, nil, false)
	if err == nil && evm.chainRules.IsEIP158 && len(ret) > params.MaxCodeSize {
		err = ErrMaxCodeSizeExceeded
	}
	if err == nil && len(ret) >= 1 && ret[0] == 0xEF && evm.chainRules.IsLondon {
		err = ErrInvalidCode
	}
	if err == nil {
		if contract.UseGas(uint64(len(ret)) * params.CreateDataGas) {
			evm.StateDB.SetCode(address, ret)
		} else {
			err = ErrCodeStoreOutOfGas
		}
	}
	if err != nil && (evm.chainRules.IsHomestead || err != ErrCodeStoreOutOfGas) {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			contract.UseGas(contract.Gas)
		}
	}
	return ret, address, contract.Gas, err
}

func (evm *EVM) Create(caller ContractRef, code []byte, gas uint64, value *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create(evm, caller, code, gas, value)
	}
	contractAddr = crypto.CreateAddress(caller.Address(), evm.StateDB.GetNonce(caller.Address()))
	return evm.create(caller, code, gas, value, contractAddr)
}

func (evm *EVM) Create2(caller ContractRef, code []byte, gas uint64, endowment *uint256.Int, salt *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create2(evm, caller, code, gas, endowment, salt)
	}
	contractAddr = crypto.CreateAddress2(caller.Address(), salt.Bytes32(), crypto.Keccak256(code))
	return evm.create(caller, code, gas, endowment, contractAddr)
}

// Status, InterpreterState and Step are extensions for conformance tests.
type Status byte

const (
	Running Status = iota
	Stopped
	Reverted
	Failed
)

type InterpreterState struct {
	Contract           *Contract
	Status             Status
	Input              []byte
	ReadOnly           bool
	Stack              *Stack
	Memory             *Memory
	Pc                 uint64
	LastCallReturnData []byte
	ReturnData         []byte
	Error              error
}

// EVMInterpreter does nothing but what Steps decides.
type EVMInterpreter struct{}

// Steps decides what a step of go-ethereum's interpreter does.
var Steps func(state *InterpreterState)

func (*EVMInterpreter) Run(*Contract, []byte, bool) ([]byte, error) { return nil, nil }
func (*EVMInterpreter) Step(state *InterpreterState)                { Steps(state) }

type Stack struct{ data []uint256.Int }

func NewStack() *Stack               { return &Stack{} }
func (s *Stack) Push(v *uint256.Int) { s.data = append(s.data, *v) }
func (s *Stack) Len() int            { return len(s.data) }
func (s *Stack) Data() []uint256.Int { return s.data }

type Memory struct {
	store       []byte
	lastGasCost uint64
}

func NewMemory() *Memory { return &Memory{} }
func (m *Memory) Resize(size uint64) {
	if uint64(len(m.store)) < size {
		m.store = append(m.store, make([]byte, size-uint64(len(m.store)))...)
	}
}
func (m *Memory) Set(offset, size uint64, value []byte) {
	if size > 0 {
		copy(m.store[offset:offset+size], value)
	}
}
func (m *Memory) Len() int     { return len(m.store) }
func (m *Memory) Data() []byte { return m.store }

// MemoryGasCost is the price of growing the memory.
func MemoryGasCost(mem *Memory, newMemSize uint64) (uint64, error) {
	if newMemSize == 0 {
		return 0, nil
	}
	if newMemSize > 0x1FFFFFFFE0 {
		return 0, ErrGasUintOverflow
	}
	words := (newMemSize + 31) / 32
	if words*32 > uint64(len(mem.store)) {
		total := words*params.MemoryGas + words*words/512
		fee := total - mem.lastGasCost
		mem.lastGasCost = total
		return fee, nil
	}
	return 0, nil
}
