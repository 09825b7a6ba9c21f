// Package evmc is a stand-in for the Go bindings of EVMC (with the stepping
// extension of Tosca's fork).  The machines behind it are simulated: Open
// decides what a library is.
package evmc

import "fmt"

type (
	// Address is an account address.
	Address [20]byte
	// Hash is a 256-bit value.
	Hash [32]byte
	// Error is a status code other than success.
	Error int32
	// Revision of the EVM.
	Revision int32
	// CallKind is a kind of message.
	CallKind int
	// StorageStatus classifies storage updates.
	StorageStatus int
	// AccessStatus tells warm from cold.
	AccessStatus int
	// StepStatus is the status of a stepped execution.
	StepStatus int
)

// Status codes.
const (
	Failure = Error(1)
	Revert  = Error(2)
)

func (e Error) Error() string { return fmt.Sprintf("evmc status %d", int32(e)) }

// IsInternalError tells failures of the machine from those of contracts.
func (e Error) IsInternalError() bool { return e < 0 }

// Revisions.
const (
	Frontier Revision = iota
	Homestead
	TangerineWhistle
	SpuriousDragon
	Byzantium
	Constantinople
	Petersburg
	Istanbul
	Berlin
	London
	Paris
	Shanghai
	Cancun
	Prague
)

// Kinds of messages.
const (
	Call CallKind = iota
	DelegateCall
	CallCode
	Create
	Create2
)

// Classes of storage updates.
const (
	StorageAssigned StorageStatus = iota
	StorageAdded
	StorageDeleted
	StorageModified
	StorageDeletedAdded
	StorageModifiedDeleted
	StorageDeletedRestored
	StorageAddedDeleted
	StorageModifiedRestored
)

// Access status.
const (
	ColdAccess AccessStatus = iota
	WarmAccess
)

// Status of a stepped execution.
const (
	Running StepStatus = iota
	Stopped
	Returned
	Reverted
	Failed
)

// TxContext is the context of a transaction.
type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

// HostContext is the host of an execution.
type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind, recipient Address, sender Address, value Hash, input []byte, gas int64, depth int, static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64, createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

// Result is the outcome of an execution.
type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

// StepParameters are the parameters of a stepped execution.
type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}

// StepResult is the outcome of a stepped execution.
type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

// ExecuteParameters are the arguments of an execution.
type ExecuteParameters struct {
	Context   HostContext
	Revision  Revision
	Kind      CallKind
	Static    bool
	Depth     int
	Gas       int64
	Recipient Address
	Sender    Address
	Input     []byte
	Value     Hash
	CodeHash  *Hash
	Code      []byte
}

// Machine is a simulated machine.
type Machine interface {
	Execute(ExecuteParameters) (Result, error)
	StepN(StepParameters) (StepResult, error)
	SetOption(name, value string) error
	Destroy()
}

// Open loads a library.
var Open = func(library string) (Machine, error) { return none{}, nil }

// none is what is loaded while the process starts, before there are machines.
type none struct{}

func (none) Execute(ExecuteParameters) (Result, error) { panic("no machine") }
func (none) StepN(StepParameters) (StepResult, error)  { panic("no machine") }
func (none) SetOption(string, string) error            { return nil }
func (none) Destroy()                                  {}

// VM is an instance of a machine.
type VM struct{ M Machine }

// VMSteppable is an instance of a machine that can be stepped.
type VMSteppable struct{ M Machine }

// Load loads a library.
func Load(library string) (*VM, error) {
	m, err := Open(library)
	if err != nil {
		return nil, err
	}
	return &VM{m}, nil
}

// LoadSteppable loads a library.
func LoadSteppable(library string) (*VMSteppable, error) {
	m, err := Open(library)
	if err != nil {
		return nil, err
	}
	return &VMSteppable{m}, nil
}

// Execute runs a message.
func (vm *VM) Execute(ctx HostContext, rev Revision, kind CallKind, static bool, depth int, gas int64, recipient Address, sender Address, input []byte, value Hash, codeHash *Hash, code []byte) (Result, error) {
	return vm.M.Execute(ExecuteParameters{ctx, rev, kind, static, depth, gas, recipient, sender, input, value, codeHash, code})
}

// SetOption configures the machine.
func (vm *VM) SetOption(name, value string) error { return vm.M.SetOption(name, value) }

// Destroy releases the machine.
func (vm *VM) Destroy() { vm.M.Destroy() }

// GetHandle gives access to the machine.
func (vm *VM) GetHandle() Machine { return vm.M }

// StepN runs some instructions.
func (vm *VMSteppable) StepN(p StepParameters) (StepResult, error) { return vm.M.StepN(p) }

// SetOption configures the machine.
func (vm *VMSteppable) SetOption(name, value string) error { return vm.M.SetOption(name, value) }

// Destroy releases the machine.
func (vm *VMSteppable) Destroy() { vm.M.Destroy() }

// GetHandle gives access to the machine.
func (vm *VMSteppable) GetHandle() Machine { return vm.M }
