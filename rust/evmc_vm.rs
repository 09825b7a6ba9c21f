//! Stand-in for the Rust EVMC bindings of the two branches evmrs depends on
//! (tosca-extensions-optimized API).
#![allow(non_camel_case_types, clippy::all)]
use std::ops::{Deref, DerefMut};

pub mod ffi {
    pub use std::ffi::c_void as evmc_host_context;
    use std::ffi::c_char;
    pub const EVMC_ABI_VERSION: u32 = 11;

    #[repr(C)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
    pub struct evmc_bytes32 {
        pub bytes: [u8; 32],
    }
    pub type evmc_uint256be = evmc_bytes32;
    #[repr(C)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
    pub struct evmc_address {
        pub bytes: [u8; 20],
    }
    macro_rules! cenum {
        ($r:ident $n:ident { $($v:ident = $x:expr),* $(,)? }) => {
            #[repr($r)]
            #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
            pub enum $n { $($v = $x),* }
        };
    }
    cenum!(u32 evmc_call_kind { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4 });
    cenum!(u32 evmc_flags { EVMC_STATIC = 1 });
    cenum!(i32 evmc_status_code {
        EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4,
        EVMC_UNDEFINED_INSTRUCTION = 5, EVMC_STACK_OVERFLOW = 6, EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8,
        EVMC_INVALID_MEMORY_ACCESS = 9, EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11,
        EVMC_PRECOMPILE_FAILURE = 12, EVMC_CONTRACT_VALIDATION_FAILURE = 13, EVMC_ARGUMENT_OUT_OF_RANGE = 14,
        EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16, EVMC_INSUFFICIENT_BALANCE = 17,
        EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2, EVMC_OUT_OF_MEMORY = -3,
    });
    cenum!(u32 evmc_step_status_code { EVMC_STEP_RUNNING = 0, EVMC_STEP_STOPPED = 1, EVMC_STEP_RETURNED = 2, EVMC_STEP_REVERTED = 3, EVMC_STEP_FAILED = 4 });
    cenum!(u32 evmc_revision {
        EVMC_FRONTIER = 0, EVMC_HOMESTEAD = 1, EVMC_TANGERINE_WHISTLE = 2, EVMC_SPURIOUS_DRAGON = 3, EVMC_BYZANTIUM = 4,
        EVMC_CONSTANTINOPLE = 5, EVMC_PETERSBURG = 6, EVMC_ISTANBUL = 7, EVMC_BERLIN = 8, EVMC_LONDON = 9, EVMC_PARIS = 10,
        EVMC_SHANGHAI = 11, EVMC_CANCUN = 12, EVMC_PRAGUE = 13,
    });
    cenum!(u32 evmc_access_status { EVMC_ACCESS_COLD = 0, EVMC_ACCESS_WARM = 1 });
    cenum!(u32 evmc_storage_status {
        EVMC_STORAGE_ASSIGNED = 0, EVMC_STORAGE_ADDED = 1, EVMC_STORAGE_DELETED = 2, EVMC_STORAGE_MODIFIED = 3, EVMC_STORAGE_DELETED_ADDED = 4,
        EVMC_STORAGE_MODIFIED_DELETED = 5, EVMC_STORAGE_DELETED_RESTORED = 6, EVMC_STORAGE_ADDED_DELETED = 7, EVMC_STORAGE_MODIFIED_RESTORED = 8,
    });
    cenum!(u32 evmc_set_option_result { EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2 });
    cenum!(u32 evmc_capabilities { EVMC_CAPABILITY_EVM1 = 1, EVMC_CAPABILITY_EWASM = 2, EVMC_CAPABILITY_PRECOMPILES = 4 });
    pub type evmc_capabilities_flagset = u32;

    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct evmc_message {
        pub kind: evmc_call_kind,
        pub flags: u32,
        pub depth: i32,
        pub gas: i64,
        pub recipient: evmc_address,
        pub sender: evmc_address,
        pub input_data: *const u8,
        pub input_size: usize,
        pub value: evmc_uint256be,
        pub create2_salt: evmc_bytes32,
        pub code_address: evmc_address,
        pub code: *const u8,
        pub code_size: usize,
        pub code_hash: *const evmc_bytes32,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Debug, PartialEq, Hash)]
    pub struct evmc_tx_initcode {
        pub hash: evmc_bytes32,
        pub code: *const u8,
        pub code_size: usize,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Debug, PartialEq, Hash)]
    pub struct evmc_tx_context {
        pub tx_gas_price: evmc_uint256be,
        pub tx_origin: evmc_address,
        pub block_coinbase: evmc_address,
        pub block_number: i64,
        pub block_timestamp: i64,
        pub block_gas_limit: i64,
        pub block_prev_randao: evmc_uint256be,
        pub chain_id: evmc_uint256be,
        pub block_base_fee: evmc_uint256be,
        pub blob_base_fee: evmc_uint256be,
        pub blob_hashes: *const evmc_bytes32,
        pub blob_hashes_count: usize,
        pub initcodes: *const evmc_tx_initcode,
        pub initcodes_count: usize,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct evmc_result {
        pub status_code: evmc_status_code,
        pub gas_left: i64,
        pub gas_refund: i64,
        pub output_data: *const u8,
        pub output_size: usize,
        pub release: Option<unsafe extern "C" fn(*const evmc_result)>,
        pub create_address: evmc_address,
        pub padding: [u8; 4],
    }
    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct evmc_step_result {
        pub step_status_code: evmc_step_status_code,
        pub status_code: evmc_status_code,
        pub revision: evmc_revision,
        pub pc: u64,
        pub gas_left: i64,
        pub gas_refund: i64,
        pub output_data: *const u8,
        pub output_size: usize,
        pub stack: *const evmc_bytes32,
        pub stack_size: usize,
        pub memory: *const u8,
        pub memory_size: usize,
        pub last_call_return_data: *const u8,
        pub last_call_return_data_size: usize,
        pub release: Option<unsafe extern "C" fn(*const evmc_step_result)>,
    }
    type Ctx = *mut evmc_host_context;
    type A = *const evmc_address;
    type B = *const evmc_bytes32;
    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct evmc_host_interface {
        pub account_exists: Option<unsafe extern "C" fn(Ctx, A) -> bool>,
        pub get_storage: Option<unsafe extern "C" fn(Ctx, A, B) -> evmc_bytes32>,
        pub set_storage: Option<unsafe extern "C" fn(Ctx, A, B, B) -> evmc_storage_status>,
        pub get_balance: Option<unsafe extern "C" fn(Ctx, A) -> evmc_bytes32>,
        pub get_code_size: Option<unsafe extern "C" fn(Ctx, A) -> usize>,
        pub get_code_hash: Option<unsafe extern "C" fn(Ctx, A) -> evmc_bytes32>,
        pub copy_code: Option<unsafe extern "C" fn(Ctx, A, usize, *mut u8, usize) -> usize>,
        pub selfdestruct: Option<unsafe extern "C" fn(Ctx, A, A) -> bool>,
        pub call: Option<unsafe extern "C" fn(Ctx, *const evmc_message) -> evmc_result>,
        pub get_tx_context: Option<unsafe extern "C" fn(Ctx) -> evmc_tx_context>,
        pub get_block_hash: Option<unsafe extern "C" fn(Ctx, i64) -> evmc_bytes32>,
        pub emit_log: Option<unsafe extern "C" fn(Ctx, A, *const u8, usize, B, usize)>,
        pub access_account: Option<unsafe extern "C" fn(Ctx, A) -> evmc_access_status>,
        pub access_storage: Option<unsafe extern "C" fn(Ctx, A, B) -> evmc_access_status>,
        pub get_transient_storage: Option<unsafe extern "C" fn(Ctx, A, B) -> evmc_bytes32>,
        pub set_transient_storage: Option<unsafe extern "C" fn(Ctx, A, B, B)>,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct evmc_vm {
        pub abi_version: i32,
        pub name: *const c_char,
        pub version: *const c_char,
        pub destroy: Option<unsafe extern "C" fn(*mut evmc_vm)>,
        pub execute: Option<
            unsafe extern "C" fn(*mut evmc_vm, *const evmc_host_interface, Ctx, evmc_revision, *const evmc_message, *const u8, usize) -> evmc_result,
        >,
        pub get_capabilities: Option<unsafe extern "C" fn(*mut evmc_vm) -> evmc_capabilities_flagset>,
        pub set_option: Option<unsafe extern "C" fn(*mut evmc_vm, *const c_char, *const c_char) -> evmc_set_option_result>,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct evmc_vm_steppable {
        pub vm: *mut evmc_vm,
        pub step_n: Option<
            unsafe extern "C" fn(
                *mut evmc_vm_steppable, *const evmc_host_interface, Ctx, evmc_revision, *const evmc_message, *const u8, usize, evmc_step_status_code,
                u64, i64, *mut evmc_bytes32, usize, *mut u8, usize, *mut u8, usize, i32,
            ) -> evmc_step_result,
        >,
        pub destroy: Option<unsafe extern "C" fn(*mut evmc_vm_steppable)>,
    }
}
use ffi::*;
pub type Address = evmc_address;
pub type Bytes32 = evmc_bytes32;
pub type Uint256 = evmc_uint256be;
pub type MessageKind = evmc_call_kind;
pub type MessageFlags = evmc_flags;
pub type StatusCode = evmc_status_code;
pub type StepStatusCode = evmc_step_status_code;
pub type StorageStatus = evmc_storage_status;
pub type AccessStatus = evmc_access_status;
pub type Revision = evmc_revision;
pub type ExecutionTxContext = evmc_tx_context;

unsafe fn slice<'a, T>(p: *const T, n: usize) -> Option<&'a [T]> {
    if p.is_null() || n == 0 { None } else { Some(unsafe { std::slice::from_raw_parts(p, n) }) }
}

#[derive(Debug)]
pub struct ExecutionMessage<'a> {
    kind: MessageKind,
    flags: u32,
    depth: i32,
    gas: i64,
    recipient: Address,
    sender: Address,
    input: Option<&'a [u8]>,
    value: Uint256,
    create2_salt: Bytes32,
    code_address: Address,
    code: Option<&'a [u8]>,
    code_hash: Option<Uint256>,
}
impl<'a> ExecutionMessage<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        kind: MessageKind, flags: u32, depth: i32, gas: i64, recipient: Address, sender: Address, input: Option<&'a [u8]>, value: Uint256,
        create2_salt: Bytes32, code_address: Address, code: Option<&'a [u8]>, code_hash: Option<Uint256>,
    ) -> Self {
        ExecutionMessage { kind, flags, depth, gas, recipient, sender, input, value, create2_salt, code_address, code, code_hash }
    }
    pub fn kind(&self) -> MessageKind {
        self.kind
    }
    pub fn flags(&self) -> u32 {
        self.flags
    }
    pub fn depth(&self) -> i32 {
        self.depth
    }
    pub fn gas(&self) -> i64 {
        self.gas
    }
    pub fn recipient(&self) -> &Address {
        &self.recipient
    }
    pub fn sender(&self) -> &Address {
        &self.sender
    }
    pub fn input(&self) -> Option<&'a [u8]> {
        self.input
    }
    pub fn value(&self) -> &Uint256 {
        &self.value
    }
    pub fn create2_salt(&self) -> &Bytes32 {
        &self.create2_salt
    }
    pub fn code_address(&self) -> &Address {
        &self.code_address
    }
    pub fn code(&self) -> Option<&'a [u8]> {
        self.code
    }
    pub fn code_hash(&self) -> Option<&Uint256> {
        self.code_hash.as_ref()
    }
}
impl<'a> From<&'a evmc_message> for ExecutionMessage<'a> {
    fn from(m: &'a evmc_message) -> Self {
        ExecutionMessage {
            kind: m.kind,
            flags: m.flags,
            depth: m.depth,
            gas: m.gas,
            recipient: m.recipient,
            sender: m.sender,
            input: unsafe { slice(m.input_data, m.input_size) },
            value: m.value,
            create2_salt: m.create2_salt,
            code_address: m.code_address,
            code: unsafe { slice(m.code, m.code_size) },
            code_hash: if m.code_hash.is_null() { None } else { Some(unsafe { *m.code_hash }) },
        }
    }
}

/// An own result, or one the host handed out (released on drop).
#[derive(Debug)]
pub struct ExecutionResult {
    status_code: StatusCode,
    gas_left: i64,
    gas_refund: i64,
    output: Option<Box<[u8]>>,
    create_address: Option<Address>,
}
impl ExecutionResult {
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        ExecutionResult { status_code, gas_left, gas_refund, output, create_address: None }
    }
    pub fn failure() -> Self {
        Self::new(StatusCode::EVMC_FAILURE, 0, 0, None)
    }
    pub fn revert(gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        Self::new(StatusCode::EVMC_REVERT, gas_left, gas_refund, output)
    }
    pub fn success(gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        Self::new(StatusCode::EVMC_SUCCESS, gas_left, gas_refund, output)
    }
    pub fn status_code(&self) -> StatusCode {
        self.status_code
    }
    pub fn gas_left(&self) -> i64 {
        self.gas_left
    }
    pub fn gas_refund(&self) -> i64 {
        self.gas_refund
    }
    pub fn output(&self) -> Option<&[u8]> {
        self.output.as_deref()
    }
    pub fn create_address(&self) -> Option<&Address> {
        self.create_address.as_ref()
    }
}
impl From<evmc_result> for ExecutionResult {
    fn from(r: evmc_result) -> Self {
        let x = ExecutionResult {
            status_code: r.status_code,
            gas_left: r.gas_left,
            gas_refund: r.gas_refund,
            output: unsafe { slice(r.output_data, r.output_size) }.map(Box::from),
            create_address: Some(r.create_address),
        };
        if let Some(f) = r.release {
            unsafe { f(&r) };
        }
        x
    }
}
unsafe fn free<T>(p: *const T, n: usize) {
    if !p.is_null() {
        drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p as *mut T, n)) });
    }
}
fn give<T>(b: Option<Box<[T]>>) -> (*const T, usize) {
    match b {
        Some(b) if !b.is_empty() => {
            let n = b.len();
            (Box::into_raw(b) as *const T, n)
        }
        _ => (std::ptr::null(), 0),
    }
}
unsafe extern "C" fn release_result(r: *const evmc_result) {
    unsafe { free((*r).output_data, (*r).output_size) }
}
impl From<ExecutionResult> for evmc_result {
    fn from(v: ExecutionResult) -> Self {
        let (output_data, output_size) = give(v.output);
        evmc_result {
            status_code: v.status_code,
            gas_left: v.gas_left,
            gas_refund: v.gas_refund,
            output_data,
            output_size,
            release: Some(release_result),
            create_address: v.create_address.unwrap_or_default(),
            padding: [0; 4],
        }
    }
}

#[derive(Debug)]
pub struct StepResult {
    pub step_status_code: StepStatusCode,
    pub status_code: StatusCode,
    pub revision: Revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Box<[u8]>>,
    pub stack: Vec<Uint256>,
    pub memory: Vec<u8>,
    pub last_call_return_data: Option<Vec<u8>>,
}
impl StepResult {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        step_status_code: StepStatusCode, status_code: StatusCode, revision: Revision, pc: u64, gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>,
        stack: Vec<Uint256>, memory: Vec<u8>, last_call_return_data: Option<Vec<u8>>,
    ) -> Self {
        StepResult { step_status_code, status_code, revision, pc, gas_left, gas_refund, output, stack, memory, last_call_return_data }
    }
}
unsafe extern "C" fn release_step(r: *const evmc_step_result) {
    unsafe {
        free((*r).output_data, (*r).output_size);
        free((*r).stack, (*r).stack_size);
        free((*r).memory, (*r).memory_size);
        free((*r).last_call_return_data, (*r).last_call_return_data_size);
    }
}
impl From<StepResult> for evmc_step_result {
    fn from(v: StepResult) -> Self {
        let (output_data, output_size) = give(v.output);
        let (stack, stack_size) = give(Some(v.stack.into_boxed_slice()));
        let (memory, memory_size) = give(Some(v.memory.into_boxed_slice()));
        let (last_call_return_data, last_call_return_data_size) = give(v.last_call_return_data.map(Vec::into_boxed_slice));
        evmc_step_result {
            step_status_code: v.step_status_code,
            status_code: v.status_code,
            revision: v.revision,
            pc: v.pc,
            gas_left: v.gas_left,
            gas_refund: v.gas_refund,
            output_data,
            output_size,
            stack,
            stack_size,
            memory,
            memory_size,
            last_call_return_data,
            last_call_return_data_size,
            release: Some(release_step),
        }
    }
}

pub struct ExecutionContext<'a> {
    host: &'a evmc_host_interface,
    context: *mut evmc_host_context,
    tx: Option<ExecutionTxContext>,
}
impl<'a> ExecutionContext<'a> {
    pub fn new(host: &'a evmc_host_interface, context: *mut evmc_host_context) -> Self {
        ExecutionContext { host, context, tx: None }
    }
    pub fn get_tx_context(&mut self) -> &ExecutionTxContext {
        let (h, c) = (self.host, self.context);
        self.tx.get_or_insert_with(|| unsafe { h.get_tx_context.unwrap()(c) })
    }
    pub fn account_exists(&self, a: &Address) -> bool {
        unsafe { self.host.account_exists.unwrap()(self.context, a) }
    }
    pub fn get_storage(&self, a: &Address, k: &Bytes32) -> Bytes32 {
        unsafe { self.host.get_storage.unwrap()(self.context, a, k) }
    }
    pub fn set_storage(&mut self, a: &Address, k: &Bytes32, v: &Bytes32) -> StorageStatus {
        unsafe { self.host.set_storage.unwrap()(self.context, a, k, v) }
    }
    pub fn get_balance(&self, a: &Address) -> Uint256 {
        unsafe { self.host.get_balance.unwrap()(self.context, a) }
    }
    pub fn get_code_size(&self, a: &Address) -> usize {
        unsafe { self.host.get_code_size.unwrap()(self.context, a) }
    }
    pub fn get_code_hash(&self, a: &Address) -> Bytes32 {
        unsafe { self.host.get_code_hash.unwrap()(self.context, a) }
    }
    pub fn copy_code(&self, a: &Address, off: usize, b: &mut [u8]) -> usize {
        unsafe { self.host.copy_code.unwrap()(self.context, a, off, b.as_mut_ptr(), b.len()) }
    }
    pub fn selfdestruct(&mut self, a: &Address, b: &Address) -> bool {
        unsafe { self.host.selfdestruct.unwrap()(self.context, a, b) }
    }
    pub fn call(&mut self, m: &ExecutionMessage) -> ExecutionResult {
        let raw = evmc_message {
            kind: m.kind,
            flags: m.flags,
            depth: m.depth,
            gas: m.gas,
            recipient: m.recipient,
            sender: m.sender,
            input_data: m.input.map_or(std::ptr::null(), <[u8]>::as_ptr),
            input_size: m.input.map_or(0, <[u8]>::len),
            value: m.value,
            create2_salt: m.create2_salt,
            code_address: m.code_address,
            code: m.code.map_or(std::ptr::null(), <[u8]>::as_ptr),
            code_size: m.code.map_or(0, <[u8]>::len),
            code_hash: m.code_hash.as_ref().map_or(std::ptr::null(), |h| h as *const _),
        };
        unsafe { self.host.call.unwrap()(self.context, &raw).into() }
    }
    pub fn get_block_hash(&self, n: i64) -> Bytes32 {
        unsafe { self.host.get_block_hash.unwrap()(self.context, n) }
    }
    pub fn emit_log(&mut self, a: &Address, d: &[u8], t: &[Bytes32]) {
        unsafe { self.host.emit_log.unwrap()(self.context, a, d.as_ptr(), d.len(), t.as_ptr(), t.len()) }
    }
    pub fn access_account(&mut self, a: &Address) -> AccessStatus {
        unsafe { self.host.access_account.unwrap()(self.context, a) }
    }
    pub fn access_storage(&mut self, a: &Address, k: &Bytes32) -> AccessStatus {
        unsafe { self.host.access_storage.unwrap()(self.context, a, k) }
    }
    pub fn get_transient_storage(&self, a: &Address, k: &Bytes32) -> Bytes32 {
        unsafe { self.host.get_transient_storage.unwrap()(self.context, a, k) }
    }
    pub fn set_transient_storage(&mut self, a: &Address, k: &Bytes32, v: &Bytes32) {
        unsafe { self.host.set_transient_storage.unwrap()(self.context, a, k, v) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SetOptionError {
    InvalidKey,
    InvalidValue,
}
pub trait EvmcVm {
    fn init() -> Self;
    fn set_option(&mut self, _: &str, _: &str) -> Result<(), SetOptionError> {
        Ok(())
    }
    fn execute<'a>(&self, revision: Revision, code: &'a [u8], message: &'a ExecutionMessage, context: Option<&'a mut ExecutionContext<'a>>) -> ExecutionResult;
}
pub trait SteppableEvmcVm: EvmcVm {
    #[allow(clippy::too_many_arguments)]
    fn step_n<'a>(
        &self, revision: Revision, code: &'a [u8], message: &'a ExecutionMessage, context: Option<&'a mut ExecutionContext<'a>>, status: StepStatusCode, pc: u64,
        gas_refunds: i64, stack: &'a mut [Uint256], memory: &'a mut [u8], last_call_result_data: &'a mut [u8], steps: i32,
    ) -> StepResult;
}
#[repr(C)]
pub struct EvmcContainer<T> {
    instance: evmc_vm,
    vm: T,
}
impl<T: EvmcVm> EvmcContainer<T> {
    pub fn new(instance: evmc_vm) -> Box<Self> {
        Box::new(EvmcContainer { instance, vm: T::init() })
    }
    /// # Safety
    /// As in the bindings.
    pub unsafe fn from_ffi_pointer(p: *mut evmc_vm) -> Box<Self> {
        unsafe { Box::from_raw(p as *mut Self) }
    }
    /// # Safety
    /// As in the bindings.
    pub unsafe fn into_ffi_pointer(b: Box<Self>) -> *mut evmc_vm {
        Box::into_raw(b) as *mut evmc_vm
    }
}
impl<T> Deref for EvmcContainer<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.vm
    }
}
impl<T> DerefMut for EvmcContainer<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.vm
    }
}
#[repr(C)]
pub struct SteppableEvmcContainer<T> {
    instance: evmc_vm_steppable,
    vm: T,
}
impl<T: SteppableEvmcVm> SteppableEvmcContainer<T> {
    pub fn new(instance: evmc_vm_steppable) -> Box<Self> {
        Box::new(SteppableEvmcContainer { instance, vm: T::init() })
    }
    /// # Safety
    /// As in the bindings.
    pub unsafe fn from_ffi_pointer(p: *mut evmc_vm_steppable) -> Box<Self> {
        unsafe { Box::from_raw(p as *mut Self) }
    }
    /// # Safety
    /// As in the bindings.
    pub unsafe fn into_ffi_pointer(b: Box<Self>) -> *mut evmc_vm_steppable {
        Box::into_raw(b) as *mut evmc_vm_steppable
    }
}
impl<T> Drop for SteppableEvmcContainer<T> {
    fn drop(&mut self) {
        let vm = self.instance.vm;
        if !vm.is_null() {
            unsafe { (*vm).destroy.unwrap()(vm) }
        }
    }
}
impl<T> Deref for SteppableEvmcContainer<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.vm
    }
}
impl<T> DerefMut for SteppableEvmcContainer<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.vm
    }
}
