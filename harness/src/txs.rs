//! Whole transactions: a chain of transactions over contracts that call, create and destroy each
//! other, run by a plain EVM and by the EVMs that dispatch to compiled code, with and without an
//! inspector.
use crate::{
    engine::{Cfg, apply, new_compiler},
    env::addr_pool,
    fw::{Check, Stats, Violation},
    gen_::{self, Asm, Kind, MIX_ALL},
    rng::{Rng, hash_bytes},
    rt,
};
use alloy_evm::{EvmEnv, EvmFactory, eth::EthEvmFactory};
use revm_bytecode::{Bytecode, opcode as op};
use revm_context::{BlockEnv, CfgEnv, Context, Journal, TxEnv};
use revm_context_interface::{
    ContextTr, JournalTr,
    result::{EVMError, ExecutionResult, HaltReason},
    transaction::{AccessList, AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization},
};
use revm_database::CacheDB;
use revm_database_interface::{DBErrorMarker, Database, DatabaseCommit, DatabaseRef};
use revm_handler::{EvmTr, ExecuteCommitEvm, ExecuteEvm, SystemCallCommitEvm, MainBuilder, MainnetEvm, SystemCallEvm, instructions::EthInstructions};
use revm_inspector::{InspectEvm, InspectSystemCallEvm, Inspector};
use revm_interpreter::{
    CallInputs, CallOutcome, CreateInputs, CreateOutcome, Gas, InstructionResult, Interpreter, InterpreterResult,
    interpreter::EthInterpreter,
    interpreter_types::{InputsTr, LegacyBytecode},
};
use revm_primitives::{Address, B256, Bytes, Log, TxKind, U256, hardfork::SpecId, keccak256};
use revm_state::{AccountInfo, EvmState};
use revmc::{
    EvmCompiler, EvmCompilerFn, EvmLlvmBackend, RawEvmCompilerFn,
    revm_evm::JitEvm as RtEvm,
    runtime::JitBackend,
};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex, atomic::{AtomicBool, Ordering}},
    time::Duration,
};

// ———————————————————————————————— database ————————————————————————————————

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DbErr(String);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DbErr {}
impl DBErrorMarker for DbErr {}

#[derive(Clone, Debug)]
pub struct Back {
    accts: Arc<HashMap<Address, (AccountInfo, HashMap<U256, U256>)>>,
    codes: Arc<HashMap<B256, Bytecode>>,
}

impl DatabaseRef for Back {
    type Error = DbErr;
    fn basic_ref(&self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        Ok(self.accts.get(&a).map(|(i, _)| AccountInfo { code: None, ..i.clone() }))
    }
    fn code_by_hash_ref(&self, h: B256) -> Result<Bytecode, DbErr> {
        Ok(self.codes.get(&h).cloned().unwrap_or_default())
    }
    fn storage_ref(&self, a: Address, k: U256) -> Result<U256, DbErr> {
        Ok(self.accts.get(&a).and_then(|(_, s)| s.get(&k).copied()).unwrap_or_default())
    }
    fn block_hash_ref(&self, n: u64) -> Result<B256, DbErr> {
        Ok(keccak256(n.to_be_bytes()))
    }
}

/// Loads fail for keys selected by a seed.
#[derive(Clone, Debug)]
pub struct Db {
    inner: CacheDB<Back>,
    fault: Arc<Mutex<Option<u64>>>,
}

impl Db {
    fn check(&self, what: &str, b: &[u8]) -> Result<(), DbErr> {
        if let Some(s) = *self.fault.lock().unwrap()
            && hash_bytes(s, b) % 6 == 0
        {
            return Err(DbErr(format!("{what} unavailable")));
        }
        Ok(())
    }
}

impl Database for Db {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        // Senders stay available.
        if self.inner.db.accts.get(&a).is_none_or(|(i, _)| i.code_hash != revm_primitives::KECCAK_EMPTY) {
            self.check("account", a.as_slice())?;
        }
        self.inner.basic(a)
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DbErr> {
        self.check("code", h.as_slice())?;
        self.inner.code_by_hash(h)
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        self.check("slot", &[a.as_slice(), &k.to_be_bytes::<32>()].concat())?;
        self.inner.storage(a, k)
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        self.check("block hash", &n.to_be_bytes())?;
        self.inner.block_hash(n)
    }
}

impl DatabaseCommit for Db {
    fn commit(&mut self, s: EvmState) {
        self.inner.commit(s)
    }
}

type Ctx = Context<BlockEnv, TxEnv, CfgEnv, Db, Journal<Db>, ()>;
type Plain = MainnetEvm<Ctx, Rec>;

// ———————————————————————————————— inspector ————————————————————————————————

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Start(String),
    Init(String),
    Log(String),
    Destroy(String),
    End { ok: bool, result: InstructionResult, text: String },
}

#[derive(Default, Debug)]
struct RecIn {
    evs: Vec<Ev>,
    /// Chooses which calls and creations the inspector interferes with.
    meddle: Option<u64>,
    meddled: u64,
}

/// Records every callback; may interfere, as a pure function of what it is shown.
#[derive(Clone, Default, Debug)]
pub struct Rec(Arc<Mutex<RecIn>>);

impl Rec {
    fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut self.0.lock().unwrap().evs)
    }
}

fn jr<C: ContextTr>(c: &mut C) -> String {
    let n = c.journal_mut().depth();
    let l = c.journal_mut().logs().len();
    format!("depth={n} logs={l}")
}

fn end(ok_gas: bool, r: &InterpreterResult) -> String {
    if ok_gas { format!("{:?} out={} gas={:?}", r.result, r.output, GasView(&r.gas)) } else { String::new() }
}

struct GasView<'a>(&'a Gas);
impl std::fmt::Debug for GasView<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}/{}/{}/{}", self.0.limit(), self.0.remaining(), self.0.refunded(), self.0.reservoir())
    }
}

impl<C: ContextTr> Inspector<C> for Rec {
    fn initialize_interp(&mut self, i: &mut Interpreter<EthInterpreter>, c: &mut C) {
        let t = format!(
            "{} target={} code={} gas={}",
            jr(c),
            i.input.target_address(),
            keccak256(i.bytecode.bytecode_slice()),
            i.gas.limit()
        );
        self.0.lock().unwrap().evs.push(Ev::Init(t));
    }
    fn log(&mut self, c: &mut C, log: Log) {
        let last = c.journal_mut().logs().last() == Some(&log);
        let t = format!("{} last={last} {log:?}", jr(c));
        self.0.lock().unwrap().evs.push(Ev::Log(t));
    }
    fn call(&mut self, c: &mut C, i: &mut CallInputs) -> Option<CallOutcome> {
        let data = i.input.bytes(c);
        let j = jr(c);
        let mut s = self.0.lock().unwrap();
        s.evs.push(Ev::Start(format!(
            "call {j} {:?} target={} code={} caller={} value={:?} gas={} res={} static={} ret={:?} in={data}",
            i.scheme, i.target_address, i.bytecode_address, i.caller, i.value, i.gas_limit, i.reservoir, i.is_static,
            i.return_memory_offset
        )));
        let m = s.meddle?;
        let h = hash_bytes(m, i.bytecode_address.as_slice()) ^ hash_bytes(m ^ 1, &data);
        let gas = Gas::new(i.gas_limit);
        let out = |result, output| {
            Some(CallOutcome::new(InterpreterResult { result, output, gas }, i.return_memory_offset.clone()))
        };
        match h % 16 {
            0 => {
                s.meddled += 1;
                out(InstructionResult::Return, Bytes::from(h.to_be_bytes().repeat(5)))
            }
            1 => {
                s.meddled += 1;
                out(InstructionResult::Revert, Bytes::from(vec![7; 40]))
            }
            2 => {
                s.meddled += 1;
                i.gas_limit = i.gas_limit.min(30_000);
                None
            }
            3 => {
                s.meddled += 1;
                i.is_static = true;
                None
            }
            _ => None,
        }
    }
    fn call_end(&mut self, c: &mut C, i: &CallInputs, o: &mut CallOutcome) {
        let ok = o.result.result.is_ok_or_revert();
        let text = if ok { format!("call {} {} {:?}", jr(c), end(true, &o.result), o.memory_offset) } else { "call".into() };
        let mut s = self.0.lock().unwrap();
        s.evs.push(Ev::End { ok, result: o.result.result, text });
        if let Some(m) = s.meddle
            && ok
        {
            match hash_bytes(m ^ 2, i.target_address.as_slice()) % 12 {
                0 => {
                    s.meddled += 1;
                    o.result.output = Bytes::from(vec![0x5a; 33]);
                }
                1 => {
                    s.meddled += 1;
                    o.result.result = InstructionResult::Revert;
                }
                _ => {}
            }
        }
    }
    fn create(&mut self, c: &mut C, i: &mut CreateInputs) -> Option<CreateOutcome> {
        let j = jr(c);
        let mut s = self.0.lock().unwrap();
        s.evs.push(Ev::Start(format!(
            "create {j} {:?} caller={} value={} gas={} res={} init={}",
            i.scheme(), i.caller(), i.value(), i.gas_limit(), i.reservoir(), i.init_code()
        )));
        let m = s.meddle?;
        match hash_bytes(m ^ 3, i.init_code()) % 10 {
            0 => {
                s.meddled += 1;
                let gas = Gas::new(i.gas_limit());
                Some(CreateOutcome::new(
                    InterpreterResult { result: InstructionResult::Revert, output: Bytes::from_static(b"no"), gas },
                    None,
                ))
            }
            1 => {
                s.meddled += 1;
                i.set_value(U256::ZERO);
                None
            }
            _ => None,
        }
    }
    fn create_end(&mut self, c: &mut C, _: &CreateInputs, o: &mut CreateOutcome) {
        let ok = o.result.result.is_ok_or_revert();
        let text = if ok { format!("create {} {} {:?}", jr(c), end(true, &o.result), o.address) } else { "create".into() };
        self.0.lock().unwrap().evs.push(Ev::End { ok, result: o.result.result, text });
    }
    fn selfdestruct(&mut self, a: Address, to: Address, v: U256) {
        self.0.lock().unwrap().evs.push(Ev::Destroy(format!("{a} -> {to} {v}")));
    }
}

/// Callbacks of one frame.
#[derive(Debug)]
struct Node {
    start: String,
    /// `Err` holds a log, initialization or destruction.
    kids: Vec<Result<Node, Ev>>,
    ok: bool,
    result: InstructionResult,
    end: String,
}

fn tree(evs: &[Ev]) -> Result<Vec<Result<Node, Ev>>, String> {
    let mut stack: Vec<(String, Vec<Result<Node, Ev>>)> = vec![(String::new(), vec![])];
    for e in evs {
        match e {
            Ev::Start(s) => stack.push((s.clone(), vec![])),
            Ev::End { ok, result, text } => {
                let Some((start, kids)) = stack.pop() else { return Err("unbalanced".into()) };
                let Some(top) = stack.last_mut() else { return Err("a frame ended that never started".into()) };
                top.1.push(Ok(Node { start, kids, ok: *ok, result: *result, end: text.clone() }));
            }
            o => stack.last_mut().unwrap().1.push(Err(o.clone())),
        }
    }
    let (_, k) = stack.pop().unwrap();
    if !stack.is_empty() { return Err("a frame started that never ended".into()) }
    Ok(k)
}

fn oogish(r: InstructionResult) -> bool {
    use InstructionResult::*;
    matches!(
        r,
        StackOverflow | StackUnderflow | OutOfGas | MemoryOOG | InvalidOperandOOG | MemoryLimitOOG | PrecompileOOG
            | ReentrancySentryOOG | StateChangeDuringStaticCall | NotActivated
    )
}

fn cmp_kids(e: &[Result<Node, Ev>], g: &[Result<Node, Ev>], prefix: bool, single: bool) -> Result<(), String> {
    for (i, x) in g.iter().enumerate() {
        match (e.get(i), x) {
            (Some(Ok(a)), Ok(b)) => cmp_node(a, b, single)?,
            (Some(Err(a)), Err(b)) if a == b => {}
            (a, b) => return Err(format!("callback #{i} of the frame: {}, reference {}", brief(Some(b)), brief(a))),
        }
    }
    if !prefix && g.len() < e.len() {
        return Err(format!("callback #{} of the frame is missing: reference {}", g.len(), brief(e.get(g.len()))));
    }
    Ok(())
}

fn brief(x: Option<&Result<Node, Ev>>) -> String {
    match x {
        None => "nothing".into(),
        Some(Ok(n)) => n.start.chars().take(300).collect(),
        Some(Err(e)) => format!("{e:?}").chars().take(300).collect(),
    }
}

fn cmp_node(e: &Node, g: &Node, single: bool) -> Result<(), String> {
    if e.start != g.start {
        return Err(format!("frame started as [{}], reference [{}]", g.start, e.start));
    }
    if e.ok != g.ok || e.end != g.end {
        return Err(format!(
            "frame [{}] ended with {:?} [{}], reference {:?} [{}]",
            g.start, g.result, g.end, e.result, e.end
        ));
    }
    let loose = oogish(e.result) || oogish(g.result);
    if !e.ok && !single && !loose && e.result != g.result {
        return Err(format!("frame [{}] failed with {:?}, reference {:?}", g.start, g.result, e.result));
    }
    // Compiled code checks gas and stack a section at a time: a failing frame may fail sooner.
    cmp_kids(&e.kids, &g.kids, !e.ok && loose, single)
}

fn cmp_events(e: &[Ev], g: &[Ev], single: bool) -> Result<(), String> {
    let (e, g) = (tree(e).map_err(|x| format!("reference callbacks: {x}"))?, tree(g)?);
    cmp_kids(&e, &g, false, single)
}

fn has_oog(v: &[Result<Node, Ev>]) -> bool {
    v.iter().any(|n| matches!(n, Ok(n) if (!n.ok && oogish(n.result)) || has_oog(&n.kids)))
}

// ———————————————————————————————— systems ————————————————————————————————

type Res = Result<ExecutionResult<HaltReason>, EVMError<DbErr>>;

/// An EVM under comparison.
trait Sys {
    fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res;
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool) -> Option<Res>;
    fn replay(&mut self) -> Option<Res>;
    fn finalize(&mut self) -> EvmState;
    fn commit(&mut self, s: EvmState);
    fn block(&mut self, b: BlockEnv);
    fn spec(&mut self, s: SpecId) -> bool;
    fn rec(&self) -> Rec;
    fn backend(&mut self, b: JitBackend);
}

fn set_spec(e: &mut Plain, s: SpecId) {
    e.ctx.cfg.set_spec_and_mainnet_gas_params(s);
    e.ctx.cfg.enable_amsterdam_eip8037 = s >= SpecId::AMSTERDAM;
    e.instruction = EthInstructions::new_mainnet_with_spec(s);
}

macro_rules! sys_common {
    () => {
        fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res {
            if inspect { self.0.inspect_one_tx(tx) } else { self.0.transact_one(tx) }
        }
        fn finalize(&mut self) -> EvmState {
            self.0.finalize()
        }
        fn block(&mut self, b: BlockEnv) {
            self.0.set_block(b);
        }
    };
}

struct SPlain(Plain);
impl Sys for SPlain {
    sys_common!();
    fn commit(&mut self, s: EvmState) {
        ExecuteCommitEvm::commit(&mut self.0, s);
    }
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool) -> Option<Res> {
        Some(if inspect {
            self.0.inspect_one_system_call_with_caller(caller, to, data)
        } else if data.len() % 2 == 1 {
            self.0.system_call_with_caller_commit(caller, to, data)
        } else {
            self.0.system_call_one_with_caller(caller, to, data)
        })
    }
    fn replay(&mut self) -> Option<Res> {
        Some(self.0.replay().map(|r| {
            self.0.ctx.db_mut().commit(r.state);
            r.result
        }))
    }
    fn spec(&mut self, s: SpecId) -> bool {
        set_spec(&mut self.0, s);
        true
    }
    fn rec(&self) -> Rec {
        self.0.inspector.clone()
    }
    fn backend(&mut self, _: JitBackend) {}
}

struct SRt(RtEvm<Plain>);
impl Sys for SRt {
    sys_common!();
    fn commit(&mut self, s: EvmState) {
        ExecuteCommitEvm::commit(&mut self.0, s);
    }
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool) -> Option<Res> {
        Some(if inspect {
            self.0.inspect_one_system_call_with_caller(caller, to, data)
        } else if data.len() % 2 == 1 {
            self.0.system_call_with_caller_commit(caller, to, data)
        } else {
            self.0.system_call_one_with_caller(caller, to, data)
        })
    }
    fn replay(&mut self) -> Option<Res> {
        Some(self.0.replay().map(|r| {
            self.0.ctx_mut().db_mut().commit(r.state);
            r.result
        }))
    }
    fn spec(&mut self, s: SpecId) -> bool {
        set_spec(self.0.inner_mut(), s);
        true
    }
    fn rec(&self) -> Rec {
        self.0.inner().inspector.clone()
    }
    fn backend(&mut self, b: JitBackend) {
        self.0.set_backend(b);
    }
}

struct SSimple<F>(revmc::JitEvm<Plain, F>);
impl<F: FnMut(B256, &[u8]) -> Option<EvmCompilerFn>> Sys for SSimple<F> {
    sys_common!();
    fn commit(&mut self, s: EvmState) {
        self.0.ctx_mut().db_mut().commit(s);
    }
    fn system(&mut self, _: Address, _: Address, _: Bytes, _: bool) -> Option<Res> {
        None
    }
    fn replay(&mut self) -> Option<Res> {
        Some(self.0.replay().map(|r| {
            self.0.ctx_mut().db_mut().commit(r.state);
            r.result
        }))
    }
    fn spec(&mut self, _: SpecId) -> bool {
        false
    }
    fn rec(&self) -> Rec {
        self.0.inspector.clone()
    }
    fn backend(&mut self, _: JitBackend) {}
}

/// Anything behind alloy's trait.
struct SAlloy<E>(E, EvmState, Rec);
impl<E> Sys for SAlloy<E>
where
    E: alloy_evm::Evm<DB = Db, Tx = TxEnv, Error = EVMError<DbErr>, HaltReason = HaltReason, Inspector = Rec>,
    E: std::ops::DerefMut<Target = alloy_evm::eth::EthEvmContext<Db>>,
{
    fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res {
        self.0.set_inspector_enabled(inspect);
        let r = self.0.transact_raw(tx)?;
        self.1 = r.state;
        Ok(r.result)
    }
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool) -> Option<Res> {
        self.0.set_inspector_enabled(inspect);
        Some(self.0.transact_system_call(caller, to, data).map(|r| {
            self.1 = r.state;
            r.result
        }))
    }
    fn replay(&mut self) -> Option<Res> {
        None
    }
    fn finalize(&mut self) -> EvmState {
        std::mem::take(&mut self.1)
    }
    fn commit(&mut self, s: EvmState) {
        self.0.db_mut().commit(s);
    }
    fn block(&mut self, b: BlockEnv) {
        self.0.block = b;
    }
    fn spec(&mut self, _: SpecId) -> bool {
        false
    }
    fn rec(&self) -> Rec {
        self.2.clone()
    }
    fn backend(&mut self, _: JitBackend) {}
}

// ———————————————————————————————— scenes ————————————————————————————————

#[derive(Clone, Debug)]
enum Step {
    Tx { tx: TxEnv, inspect: bool, finalize: bool },
    System { caller: Address, to: Address, data: Bytes, inspect: bool },
    Replay,
    Block(BlockEnv),
    Spec(SpecId),
    Fault(Option<u64>),
    Meddle(Option<u64>),
    Backend(u8),
}

struct Scene {
    faulty: bool,
    spec: SpecId,
    back: Back,
    block: BlockEnv,
    steps: Vec<Step>,
    codes: Vec<(Address, Vec<u8>)>,
}

fn after(spec: SpecId, s: SpecId) -> bool {
    spec >= s
}

fn ret_data(a: &mut Asm, slot: u64) {
    // RETURNDATACOPY everything to 0x80, hash it into a slot.
    for o in [op::RETURNDATASIZE] {
        a.op(o);
    }
    a.pushu(0).pushu(0x80).op(op::RETURNDATACOPY);
    a.op(op::RETURNDATASIZE).pushu(0x80).op(op::KECCAK256);
    a.pushu(slot).op(op::SSTORE);
}

/// Pushes the address of someone to deal with.
fn someone(r: &mut Rng, a: &mut Asm, pool: &[Address]) {
    match r.below(14) {
        0 => {
            a.op(op::ADDRESS);
        }
        1 => {
            a.op(op::CALLER);
        }
        2 => {
            let p = *r.pick(&[1u64, 2, 3, 4, 5, 6, 7, 9, 0x100]);
            a.pushu(p);
        }
        3 => {
            a.push(U256::from(r.u64()));
        }
        4 => {
            a.op(op::ORIGIN);
        }
        _ => {
            a.push(U256::from_be_slice(r.pick(pool).as_slice()));
        }
    }
}

/// A contract that acts on others; its first calldata word bounds the recursion.
pub fn actor(r: &mut Rng, spec: SpecId, pool: &[Address], depth: usize) -> Vec<u8> {
    let mut a = Asm::new();
    let (stop, fail) = (a.label(), a.label());
    let mut blobs: Vec<(usize, Vec<u8>)> = vec![];
    a.pushu(0).op(op::CALLDATALOAD).op(op::ISZERO).push_label(stop).op(op::JUMPI);
    let n = r.range(1, 7);
    for _ in 0..n {
        let slot = r.below(4) as u64;
        match r.below(20) {
            0..=2 => {
                a.pushu(slot).op(op::SLOAD);
                match r.below(4) {
                    0 => a.op(op::CALLVALUE),
                    1 => a.op(op::CALLER),
                    2 => a.pushu(0).op(op::CALLDATALOAD),
                    _ => a.push(U256::from(r.below(3))),
                };
                a.op(op::ADD).pushu(slot).op(op::SSTORE);
            }
            3 => {
                a.pushu(0).pushu(slot).op(op::SSTORE);
            }
            4 | 5 => {
                let t = r.below(5);
                a.pushu(0).op(op::CALLDATALOAD).pushu(0x40).op(op::MSTORE);
                for i in 0..t {
                    if r.chance(50) { a.op(op::CALLER) } else { a.push(U256::from(i + 100 * r.below(3))) };
                }
                let (l, o) = (*r.pick(&[0u64, 1, 32, 64]), *r.pick(&[0u64, 0x40, 0x41]));
                a.pushu(l).pushu(o).op(op::LOG0 + t as u8);
            }
            6..=11 => {
                // A call passing on the bound, one less.
                a.pushu(1).pushu(0).op(op::CALLDATALOAD).op(op::SUB).pushu(0).op(op::MSTORE);
                let mut o = *r.pick(&[op::CALL, op::CALL, op::CALL, op::DELEGATECALL, op::STATICCALL, op::CALLCODE]);
                if (o == op::STATICCALL && !after(spec, SpecId::BYZANTIUM)) || (o == op::DELEGATECALL && !after(spec, SpecId::HOMESTEAD)) {
                    o = op::CALL;
                }
                let (ol, oo) = (*r.pick(&[0u64, 0, 32, 40]), *r.pick(&[0x20u64, 0x60]));
                let il = *r.pick(&[32u64, 32, 32, 0, 64, 5]);
                a.pushu(ol).pushu(oo).pushu(il).pushu(0);
                if matches!(o, op::CALL | op::CALLCODE) {
                    let v = *r.pick(&[0u64, 0, 0, 1, 3, 1_000_000_000_000]);
                    a.pushu(v);
                }
                someone(r, &mut a, pool);
                match r.below(5) {
                    0 => {
                        let g = *r.pick(&[0u64, 700, 2300, 5000, 30_000, 100_000]);
                        a.pushu(g);
                    }
                    1 => {
                        a.pushu(2).op(op::GAS).op(op::DIV);
                    }
                    _ => {
                        // Before EIP-150 asking for more than there is fails.
                        if after(spec, SpecId::TANGERINE) { a.op(op::GAS) } else { a.pushu(2).op(op::GAS).op(op::DIV) };
                    }
                }
                a.op(o);
                match r.below(4) {
                    0 => {
                        a.op(op::POP);
                    }
                    1 => {
                        a.op(op::ISZERO).push_label(fail).op(op::JUMPI);
                    }
                    _ => {
                        a.pushu(10 + slot).op(op::SSTORE);
                    }
                }
                if after(spec, SpecId::BYZANTIUM) && r.chance(40) {
                    ret_data(&mut a, 20 + slot);
                }
            }
            12 | 13 => {
                // Create from a blob of init code appended to the code.
                let two = after(spec, SpecId::PETERSBURG) && r.chance(50);
                let init = initcode(r, spec, pool, depth);
                let l = a.label();
                if two {
                    if r.chance(50) { a.pushu(slot) } else { a.op(op::CALLER) };
                }
                let len = init.len();
                a.pushu(len as u64).push_label(l).pushu(0x200).op(op::CODECOPY);
                blobs.push((l, init));
                a.pushu(len as u64).pushu(0x200);
                let v = *r.pick(&[0u64, 0, 0, 2]);
                a.pushu(v).op(if two { op::CREATE2 } else { op::CREATE });
                if r.chance(60) {
                    // Call it.
                    a.op(op::DUP1).pushu(30 + slot).op(op::SSTORE);
                    a.pushu(1).pushu(0).op(op::CALLDATALOAD).op(op::SUB).pushu(0).op(op::MSTORE);
                    a.pushu(0).pushu(0).pushu(32).pushu(0).pushu(0).op(op::DUP1 + 5);
                    a.pushu(60_000).op(op::CALL).op(op::POP);
                }
                a.op(op::POP);
            }
            14 => {
                someone(r, &mut a, pool);
                let mut o = *r.pick(&[op::BALANCE, op::EXTCODESIZE, op::EXTCODEHASH]);
                if o == op::EXTCODEHASH && !after(spec, SpecId::PETERSBURG) {
                    o = op::BALANCE;
                }
                a.op(o).pushu(40 + slot).op(op::SSTORE);
            }
            15 => {
                if after(spec, SpecId::CANCUN) {
                    a.pushu(slot).op(op::TLOAD).op(op::CALLER).op(op::ADD).op(op::DUP1).pushu(slot).op(op::TSTORE);
                    a.pushu(50 + slot).op(op::SSTORE);
                } else {
                    a.pushu(24).pushu(3).pushu(0x300);
                    someone(r, &mut a, pool);
                    a.op(op::EXTCODECOPY).pushu(0x300).op(op::MLOAD).pushu(50).op(op::SSTORE);
                }
            }
            16 => {
                let mut o = vec![op::NUMBER, op::TIMESTAMP, op::COINBASE, op::GASLIMIT, op::DIFFICULTY, op::GASPRICE, op::MSIZE, op::GAS, op::PC, op::CODESIZE];
                if after(spec, SpecId::ISTANBUL) {
                    o.extend([op::SELFBALANCE, op::CHAINID]);
                }
                if after(spec, SpecId::LONDON) {
                    o.push(op::BASEFEE);
                }
                if after(spec, SpecId::CANCUN) {
                    o.push(op::BLOBBASEFEE);
                }
                let o = *r.pick(&o);
                a.op(o).pushu(60 + slot).op(op::SSTORE);
            }
            17 => {
                a.pushu(1).op(op::NUMBER).op(op::SUB).op(op::BLOCKHASH).pushu(70).op(op::SSTORE);
            }
            18 => {
                // A short loop.
                let (top, k) = (a.label(), r.range(2, 6) as u64);
                a.pushu(k);
                a.place(top);
                a.op(op::DUP1).op(op::DUP1).op(op::MSIZE).op(op::MSTORE);
                a.pushu(1).op(op::SWAP1).op(op::SUB).op(op::DUP1).push_label(top).op(op::JUMPI).op(op::POP);
            }
            _ => {
                if after(spec, SpecId::CANCUN) {
                    a.pushu(slot).op(op::BLOBHASH).pushu(80).op(op::SSTORE);
                } else {
                    a.op(op::CALLDATASIZE).pushu(0).pushu(0x100).op(op::CALLDATACOPY);
                }
            }
        }
    }
    match r.below(14) {
        0 => {
            someone(r, &mut a, pool);
            a.op(op::SELFDESTRUCT);
        }
        1 => {
            a.op(op::INVALID);
        }
        2 => {
            a.pushu(1).op(op::JUMP);
        }
        3 if after(spec, SpecId::BYZANTIUM) => {
            a.pushu(40).pushu(0x20).op(op::REVERT);
        }
        4..=7 => {
            a.pushu(*r.pick(&[0u64, 32, 33, 0x80])).pushu(0).op(op::RETURN);
        }
        8 => {
            a.op(op::POP);
        }
        9 => {
            // Destroys itself only at the end of the recursion.
            let l = a.label();
            a.pushu(0).op(op::CALLDATALOAD).pushu(1).op(op::SUB).push_label(l).op(op::JUMPI);
            someone(r, &mut a, pool);
            a.op(op::SELFDESTRUCT);
            a.place(l);
            a.op(op::STOP);
        }
        _ => {
            a.op(op::STOP);
        }
    }
    a.place(fail);
    if after(spec, SpecId::BYZANTIUM) {
        a.op(op::CALLER).pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(op::REVERT);
    } else {
        a.op(op::INVALID);
    }
    a.place(stop);
    if r.chance(50) {
        a.op(op::STOP);
    } else {
        a.pushu(7).pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(op::RETURN);
    }
    for (l, b) in blobs {
        a.op(op::INVALID);
        a.bind(l);
        a.raw(&b);
    }
    a.finish()
}

pub fn initcode(r: &mut Rng, spec: SpecId, pool: &[Address], depth: usize) -> Vec<u8> {
    let mut a = Asm::new();
    if r.chance(40) {
        a.op(op::CALLVALUE).pushu(1).op(op::SSTORE);
    }
    if r.chance(30) {
        a.pushu(0).pushu(0).op(op::LOG0);
    }
    match r.below(8) {
        0 => {
            a.op(op::CALLER).op(op::SELFDESTRUCT);
        }
        1 => {
            a.pushu(3).pushu(0).op(if after(spec, SpecId::BYZANTIUM) { op::REVERT } else { op::INVALID });
        }
        2 => {
            // Code starting with 0xef.
            a.pushu(0xef).pushu(0).op(op::MSTORE8).pushu(2).pushu(0).op(op::RETURN);
        }
        3 => {
            a.pushu(*r.pick(&[0u64, 24576, 24577, 700])).pushu(0).op(op::RETURN);
        }
        _ => {
            let body = if depth == 0 {
                vec![op::PUSH1, 9, op::PUSH1, 0, op::SSTORE, op::ADDRESS, op::SELFDESTRUCT]
            } else {
                actor(r, spec, pool, depth - 1)
            };
            let l = a.label();
            a.pushu(body.len() as u64).push_label(l).pushu(0).op(op::CODECOPY);
            a.pushu(body.len() as u64).pushu(0).op(op::RETURN);
            a.bind(l);
            a.raw(&body);
        }
    }
    a.finish()
}

fn block(r: &mut Rng) -> BlockEnv {
    let mut b = BlockEnv {
        number: U256::from(r.range(1, 20_000_000)),
        timestamp: U256::from(r.u64() >> 30),
        beneficiary: Address::with_last_byte(0xbe),
        gas_limit: 1_000_000_000,
        basefee: *r.pick(&[0u64, 1, 7]),
        difficulty: U256::from(r.u64()),
        prevrandao: Some(B256::from(r.u256())),
        ..Default::default()
    };
    b.set_blob_excess_gas_and_price(0, 3_338_477);
    b
}

fn senders(seed: u64) -> Vec<Address> {
    (0..3u64).map(|i| Address::from_word(keccak256([seed.to_be_bytes(), (i + 1).to_be_bytes()].concat()))).collect()
}

impl Scene {
    fn new(r: &mut Rng, inspect_pct: u32, spec_changes: bool, system: bool, replay: bool) -> Self {
        let spec = gen_::spec(r);
        let seed = r.u64();
        let pool = addr_pool(seed);
        let from = senders(seed);
        let mut everyone = pool.clone();
        everyone.push(from[0]);
        let mut accts = HashMap::new();
        let mut codes = HashMap::new();
        let mut list = vec![];
        for f in &from {
            let mut i = AccountInfo { balance: U256::from(10u64).pow(U256::from(24)), nonce: 0, ..Default::default() };
            i.account_id = None;
            accts.insert(*f, (i, HashMap::new()));
        }
        for (k, p) in pool.iter().enumerate() {
            let code = match r.below(10) {
                0 => vec![],
                1 | 2 => {
                    let kind = *r.pick(&[Kind::Straight, Kind::Cfg, Kind::Sol, Kind::Mutant]);
                    let mut c = gen_::program(r, spec, seed, MIX_ALL, kind);
                    c.truncate(1500);
                    c
                }
                3 if k > 0 => list.last().map(|(_, c): &(Address, Vec<u8>)| c.clone()).unwrap_or_default(),
                _ => actor(r, spec, &everyone, 1),
            };
            let bc = if after(spec, SpecId::PRAGUE) && r.chance(12) {
                Bytecode::new_eip7702(*r.pick(&pool))
            } else {
                Bytecode::new_legacy(code.clone().into())
            };
            let h = if code.is_empty() && bc.is_empty() { revm_primitives::KECCAK_EMPTY } else { bc.hash_slow() };
            codes.insert(h, bc);
            let storage = (0..r.below(4)).map(|i| (U256::from(i), U256::from(r.below(3)))).collect();
            let mut info = AccountInfo { balance: U256::from(r.below(20)), nonce: 1, code_hash: h, ..Default::default() };
            info.code = None;
            info.account_id = None;
            accts.insert(*p, (info, storage));
            list.push((*p, code));
        }
        let back = Back { accts: Arc::new(accts), codes: Arc::new(codes) };
        let mut steps = vec![];
        let mut cur = spec;
        let mut faulty = false;
        for _ in 0..r.range(3, 9) {
            match r.below(20) {
                0 | 8 if system => {
                    let n = r.below(3);
                    let mut data = U256::from(n).to_be_bytes::<32>().to_vec();
                    data.truncate(*r.pick(&[32, 32, 4]));
                    steps.push(Step::System {
                        caller: "0xfffffffffffffffffffffffffffffffffffffffe".parse().unwrap(),
                        to: *r.pick(&pool),
                        data: data.into(),
                        inspect: r.chance(inspect_pct),
                    });
                }
                1 if replay => steps.push(Step::Replay),
                2 => steps.push(Step::Block(block(r))),
                3 if spec_changes => {
                    cur = gen_::spec(r);
                    steps.push(Step::Spec(cur));
                }
                4 => {
                    faulty = !faulty;
                    steps.push(Step::Fault(faulty.then(|| r.u64())));
                }
                5 | 9 | 10 if inspect_pct > 0 => {
                    let m = r.chance(70).then(|| r.u64());
                    steps.push(Step::Meddle(m));
                }
                6 | 7 => steps.push(Step::Backend(r.below(6) as u8)),
                _ => {}
            }
            let tx = Self::tx(r, cur, &pool, &from, &list);
            steps.push(Step::Tx { tx, inspect: r.chance(inspect_pct), finalize: r.chance(70) });
        }
        let faulty = steps.iter().any(|s| matches!(s, Step::Fault(_)));
        if faulty {
            steps.retain(|s| !matches!(s, Step::Meddle(_)));
        }
        Self { faulty, spec, back, block: block(r), steps, codes: list }
    }

    fn tx(r: &mut Rng, spec: SpecId, pool: &[Address], from: &[Address], list: &[(Address, Vec<u8>)]) -> TxEnv {
        let d = *r.pick(&[0usize, 1, 1, 2, 2, 3, 4]);
        let mut data = U256::from(d).to_be_bytes::<32>().to_vec();
        if r.chance(20) {
            data.extend(r.bytes(40));
        }
        let kind = if r.chance(15) {
            data = if r.chance(70) { initcode(r, spec, pool, 1) } else { r.pick(list).1.clone() };
            TxKind::Create
        } else {
            TxKind::Call(*r.pick(pool))
        };
        let mut tx = TxEnv {
            caller: *r.pick(from),
            kind,
            data: data.into(),
            gas_limit: *r.pick(&[25_000, 60_000, 120_000, 400_000, 1_000_000, 3_000_000]),
            gas_price: *r.pick(&[7, 10]),
            value: U256::from(*r.pick(&[0u64, 0, 0, 5])),
            ..Default::default()
        };
        tx.chain_id = Some(1);
        match r.below(6) {
            0 if after(spec, SpecId::BERLIN) => {
                tx.tx_type = 1;
                tx.access_list = AccessList(vec![AccessListItem {
                    address: *r.pick(pool),
                    storage_keys: (0..r.below(3)).map(|k| B256::from(U256::from(k))).collect(),
                }]);
            }
            1 if after(spec, SpecId::LONDON) => {
                tx.tx_type = 2;
                tx.gas_priority_fee = Some(r.below(3) as u128);
            }
            2 if after(spec, SpecId::CANCUN) && kind != TxKind::Create => {
                tx.tx_type = 3;
                tx.gas_priority_fee = Some(0);
                tx.max_fee_per_blob_gas = 1_000_000_000;
                let mut h = [3u8; 32];
                h[0] = 1;
                tx.blob_hashes = vec![h.into(); r.range(1, 3)];
            }
            3 if after(spec, SpecId::PRAGUE) && kind != TxKind::Create => {
                tx.tx_type = 4;
                tx.gas_priority_fee = Some(0);
                let auth = Authorization { chain_id: U256::from(r.below(2)), address: *r.pick(pool), nonce: r.below(2) as u64 };
                let who = *r.pick(from);
                tx.set_recovered_authorization(vec![RecoveredAuthorization::new_unchecked(auth, RecoveredAuthority::Valid(who))]);
            }
            _ => {}
        }
        tx
    }

    fn db(&self) -> Db {
        Db { inner: CacheDB::new(self.back.clone()), fault: Default::default() }
    }

    fn cfg(&self) -> CfgEnv {
        let mut c = CfgEnv::new_with_spec(self.spec);
        c.set_spec_and_mainnet_gas_params(self.spec);
        c.enable_amsterdam_eip8037 = self.spec >= SpecId::AMSTERDAM;
        c.disable_nonce_check = true;
        c
    }

    fn plain(&self, db: Db) -> Plain {
        let mut ctx: Ctx = Context::new(db, self.spec);
        ctx.cfg = self.cfg();
        ctx.block = self.block.clone();
        ctx.build_mainnet_with_inspector(Rec::default())
    }

    fn env(&self) -> EvmEnv {
        EvmEnv { cfg_env: self.cfg(), block_env: self.block.clone() }
    }

    fn describe(&self) -> Value {
        json!({
            "fork": format!("{:?}", self.spec),
            "contracts": self.codes.iter().map(|(a, c)| json!({"address": a.to_string(), "code": revm_primitives::hex::encode(c)})).collect::<Vec<_>>(),
            "steps": self.steps.iter().map(|s| { let mut t = format!("{s:?}"); t.truncate(1500); t }).collect::<Vec<_>>(),
        })
    }
}

/// What is observable of a committed state.
#[derive(Clone, Debug, PartialEq)]
struct Acct {
    destroyed: bool,
    created: bool,
    balance: U256,
    nonce: u64,
    code_hash: B256,
    slots: BTreeMap<U256, U256>,
}

fn view(s: &EvmState) -> BTreeMap<Address, Acct> {
    s.iter()
        // RIPEMD-160's account stays touched when the frame that touched it fails (revm reproduces
        // that historical accident), and a failing frame may fail sooner in compiled code.
        .filter(|(a, x)| x.is_touched() && !(x.is_empty() && **a == Address::with_last_byte(3)))
        .map(|(a, x)| {
            let slots = x.storage.iter().filter(|(_, v)| v.is_changed()).map(|(k, v)| (*k, v.present_value)).collect();
            (*a, Acct {
                destroyed: x.is_selfdestructed(),
                created: x.is_created(),
                balance: x.info.balance,
                nonce: x.info.nonce,
                code_hash: x.info.code_hash,
                slots,
            })
        })
        .collect()
}

fn cmp_res(e: &Res, g: &Res, single: bool) -> Result<(), String> {
    use ExecutionResult::Halt;
    match (e, g) {
        (Ok(Halt { reason: a, gas: ga, logs: la }), Ok(Halt { reason: b, gas: gb, logs: lb })) => {
            let loose = |x: &HaltReason| {
                matches!(x, HaltReason::OutOfGas(_) | HaltReason::StackUnderflow | HaltReason::StackOverflow | HaltReason::NotActivated | HaltReason::StateChangeDuringStaticCall)
            };
            if ga != gb || la != lb || (!single && a != b && !loose(a) && !loose(b)) {
                return Err(format!("transaction failed with {g:?}, reference {e:?}"));
            }
            Ok(())
        }
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(a), Err(b)) if format!("{a:?}") == format!("{b:?}") => Ok(()),
        _ => Err(format!("transaction gave {g:?}, reference {e:?}")),
    }
}

/// Runs the steps of a scene on one system.
struct Runner<'a> {
    sys: Box<dyn Sys + 'a>,
    fault: Arc<Mutex<Option<u64>>>,
    open: bool,
    had_tx: bool,
}

impl<'a> Runner<'a> {
    fn new(sys: Box<dyn Sys + 'a>, fault: Arc<Mutex<Option<u64>>>) -> Self {
        Self { sys, fault, open: false, had_tx: false }
    }

    fn close(&mut self, o: &mut Obs) {
        self.open = false;
        let s = self.sys.finalize();
        o.states.push(view(&s));
        self.sys.commit(s);
    }

    /// With `every`, state is finalized after every transaction.
    fn step(&mut self, st: &Step, every: bool, backends: &mut dyn FnMut(u8, &mut dyn Sys)) -> Obs {
        let rec = self.sys.rec();
        rec.take();
        let mut o = Obs { res: None, evs: vec![], states: vec![], witness_oog: false };
        if !matches!(st, Step::Tx { .. } | Step::Meddle(_) | Step::Backend(_)) && self.open {
            self.close(&mut o);
        }
        match st {
            Step::Tx { tx, inspect, finalize } => {
                let r = self.sys.tx(tx.clone(), *inspect);
                self.had_tx = true;
                self.open = true;
                if *finalize || every || r.is_err() {
                    self.close(&mut o);
                }
                o.res = Some(r);
            }
            Step::System { caller, to, data, inspect } => {
                o.res = self.sys.system(*caller, *to, data.clone(), *inspect);
                self.close(&mut o);
            }
            Step::Replay => {
                if self.had_tx {
                    o.res = self.sys.replay();
                    self.close(&mut o);
                }
            }
            Step::Block(b) => self.sys.block(b.clone()),
            Step::Spec(s) => {
                self.sys.spec(*s);
            }
            Step::Fault(f) => *self.fault.lock().unwrap() = *f,
            Step::Meddle(m) => rec.0.lock().unwrap().meddle = *m,
            Step::Backend(k) => backends(*k, &mut *self.sys),
        }
        o.evs = rec.take();
        o
    }
}

/// What a system showed at one step.
#[derive(Debug)]
struct Obs {
    res: Option<Res>,
    evs: Vec<Ev>,
    states: Vec<BTreeMap<Address, Acct>>,
    /// Without the failing database, some frame of this step runs out of gas or stack.
    witness_oog: bool,
}

fn observe_all(s: &Scene, alloy: bool, st: &mut Stats) -> Vec<Obs> {
    let every = alloy || s.faulty;
    let db = s.db();
    let fault = db.fault.clone();
    // alloy's own EVM does not show system calls to its inspector; the one here does, as revm's does.
    let shown = s.steps.iter().any(|s| matches!(s, Step::System { inspect: true, .. }));
    let sys: Box<dyn Sys> = if alloy && !shown {
        let rec = Rec::default();
        Box::new(SAlloy(EthEvmFactory::default().create_evm_with_inspector(db, s.env(), rec.clone()), Default::default(), rec))
    } else {
        Box::new(SPlain(s.plain(db)))
    };
    // The same without failures, to learn what would have happened.
    let mut wit = s.faulty.then(|| {
        let db = s.db();
        let f = db.fault.clone();
        (SPlain(s.plain(db)), f)
    });
    let mut run = Runner::new(sys, fault);
    let mut v = vec![];
    let mut broken = false;
    for step in &s.steps {
        let failing = run.fault.lock().unwrap().is_some();
        let mut o = run.step(step, every, &mut |_, _| {});
        st.count("steps", 1);
        if let Some(r) = &o.res {
            st.count(
                match r {
                    Ok(ExecutionResult::Success { .. }) => "tx:success",
                    Ok(ExecutionResult::Revert { .. }) => "tx:revert",
                    Ok(ExecutionResult::Halt { .. }) => "tx:halt",
                    Err(EVMError::Database(_)) => "tx:database_error",
                    Err(_) => "tx:invalid",
                },
                1,
            );
        }
        if !o.evs.is_empty() {
            for e in &o.evs {
                st.count(
                    match e {
                        Ev::Start(_) => "callbacks:frame",
                        Ev::Init(_) => "callbacks:initialize",
                        Ev::Log(_) => "callbacks:log",
                        Ev::Destroy(_) => "callbacks:selfdestruct",
                        Ev::End { ok: true, .. } => "callbacks:end",
                        Ev::End { .. } => "callbacks:failed_end",
                    },
                    1,
                );
            }
        }
        if failing && matches!(o.res, Some(Err(EVMError::Database(_)))) {
            broken = true;
        }
        if let Some((w, _)) = &mut wit {
            // The witness only stays in step until the first failure.
            let mut all = Runner::new(Box::new(ByRef(w)), Default::default());
            all.had_tx = run.had_tx;
            let step = match step {
                Step::Tx { tx, .. } => Step::Tx { tx: tx.clone(), inspect: true, finalize: true },
                Step::System { caller, to, data, .. } => Step::System { caller: *caller, to: *to, data: data.clone(), inspect: true },
                x => x.clone(),
            };
            let x = all.step(&step, true, &mut |_, _| {});
            o.witness_oog = tree(&x.evs).map(|t| has_oog(&t)).unwrap_or(true) || matches!(step, Step::Replay);
        }
        v.push(o);
        if broken {
            // What follows would need the witness in step; one failure per scene.
            break;
        }
    }
    st.count("meddled", run.sys.rec().0.lock().unwrap().meddled);
    v
}

struct ByRef<'a>(&'a mut SPlain);
impl Sys for ByRef<'_> {
    fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res { self.0.tx(tx, inspect) }
    fn system(&mut self, a: Address, b: Address, c: Bytes, d: bool) -> Option<Res> { self.0.system(a, b, c, d) }
    fn replay(&mut self) -> Option<Res> { self.0.replay() }
    fn finalize(&mut self) -> EvmState { self.0.finalize() }
    fn commit(&mut self, s: EvmState) { self.0.commit(s) }
    fn block(&mut self, b: BlockEnv) { self.0.block(b) }
    fn spec(&mut self, s: SpecId) -> bool { self.0.spec(s) }
    fn rec(&self) -> Rec { self.0.rec() }
    fn backend(&mut self, _: JitBackend) {}
}

/// Runs a candidate against the recorded reference.
fn against<'a>(
    s: &'a Scene,
    exp: &[Obs],
    sys: Box<dyn Sys + 'a>,
    fault: Arc<Mutex<Option<u64>>>,
    every: bool,
    single: bool,
    mut backends: impl FnMut(u8, &mut dyn Sys),
) -> Result<(), (usize, String)> {
    let mut run = Runner::new(sys, fault);
    for (i, (step, e)) in s.steps.iter().zip(exp).enumerate() {
        crate::fw::set_tag(&format!("step {i}"));
        let g = run.step(step, every || s.faulty, &mut backends);
        let failed = |r: &Option<Res>| matches!(r, Some(Err(EVMError::Database(_))));
        if (failed(&e.res) || failed(&g.res)) && e.witness_oog {
            return Ok(());
        }
        let c = match (&e.res, &g.res) {
            (Some(a), Some(b)) => cmp_res(a, b, single),
            (None, None) => Ok(()),
            (a, b) => Err(format!("{b:?}, reference {a:?}")),
        };
        c.map_err(|x| (i, x))?;
        if failed(&e.res) {
            // Frames are cut short: callbacks so far must agree.
            let same = |a: &Ev, b: &Ev| match (a, b) {
                (Ev::End { ok: false, .. }, Ev::End { ok: false, .. }) => true,
                _ => a == b,
            };
            if let Some(k) = (0..e.evs.len().max(g.evs.len())).find(|&k| match (e.evs.get(k), g.evs.get(k)) {
                (Some(a), Some(b)) => !same(a, b),
                _ => true,
            }) {
                return Err((i, format!("callback {k} before the database failure: {:?}, reference {:?}", g.evs.get(k), e.evs.get(k))));
            }
            return Ok(());
        }
        cmp_events(&e.evs, &g.evs, single).map_err(|x| (i, x))?;
        if e.states != g.states {
            let d = e.states.iter().zip(&g.states).find_map(|(a, b)| {
                let k: std::collections::BTreeSet<_> = a.keys().chain(b.keys()).collect();
                k.into_iter().find(|k| a.get(*k) != b.get(*k)).map(|k| (*k, b.get(k).cloned(), a.get(k).cloned()))
            });
            return Err((i, match d {
                Some((k, g, e)) => format!("state of {k} is {g:?}, reference {e:?}"),
                None => format!("{} states, reference {}", g.states.len(), e.states.len()),
            }));
        }
    }
    Ok(())
}

// ———————————————————————————————— check ————————————————————————————————

pub struct Txs {
    inspect: bool,
    jit: Option<EvmCompiler<EvmLlvmBackend>>,
    jitted: u64,
}

fn bad(s: &Scene, how: &str, (i, e): (usize, String)) -> Violation {
    let mut step = format!("{:?}", s.steps[i]);
    step.truncate(400);
    Violation::new(format!("{how}, step {i}: {}", e.chars().take(1500).collect::<String>()), json!({"scene": s.describe(), "how": how, "step": step}))
}

impl Txs {
    pub fn new(inspect: bool) -> Self {
        Self { inspect, jit: None, jitted: 0 }
    }

    fn backend(r: &mut Rng, blocking: bool) -> (JitBackend, bool) {
        let mut c = rt::base_config(r);
        c.blocking = blocking;
        if blocking {
            c.tuning.jit_hot_threshold = *r.pick(&[0, 1]);
        }
        let single = c.single_error;
        c.tuning.jit_worker_count = 1;
        (JitBackend::new(c).expect("starting a service"), single)
    }

    fn service(&mut self, r: &mut Rng, st: &mut Stats, s: &Scene, exp: &[Obs], blocking: bool) -> Result<(), Violation> {
        let (b, single) = Self::backend(r, blocking);
        let (b2, single2) = if s.steps.iter().any(|x| matches!(x, Step::Backend(3))) {
            Self::backend(r, true)
        } else {
            (JitBackend::disabled(), false)
        };
        let db = s.db();
        let fault = db.fault.clone();
        let how = if blocking { "blocking service" } else { "background service" };
        let mut rr = Rng::new(r.u64());
        let mut on = true;
        let cur = Arc::new(Mutex::new(b.clone()));
        let cur2 = cur.clone();
        let res = against(s, exp, Box::new(SRt(RtEvm::new(s.plain(db), b.clone()))), fault, false, single || single2, move |k, sys| {
            let b = cur2.lock().unwrap().clone();
            match k {
                0 => b.clear_resident(),
                1 => b.clear_all(),
                2 => {
                    on = !on;
                    let _ = b.set_enabled(on);
                }
                3 => {
                    *cur2.lock().unwrap() = b2.clone();
                    sys.backend(b2.clone());
                }
                4 => sys.backend(JitBackend::disabled()),
                _ => sys.backend(b.clone()),
            }
            if rr.chance(30) {
                std::thread::sleep(Duration::from_millis(rr.below(30) as u64));
            }
        });
        let t = b.stats();
        st.count("lookup_hits", t.lookup_hits);
        st.count("programs_compiled", t.compilations_succeeded);
        st.count(how, 1);
        drop(cur);
        res.map_err(|e| bad(s, how, e))
    }

    fn simple(&mut self, r: &mut Rng, st: &mut Stats, s: &Scene, exp: &[Obs], on_miss: bool) -> Result<(), Violation> {
        if self.jitted > 150 {
            self.jit = None;
            self.jitted = 0;
        }
        let c = self.jit.get_or_insert_with(new_compiler);
        let mut cfg = Cfg::random(r);
        cfg.opt = *r.pick(&[0, 0, 1, 2]);
        apply(c, &cfg);
        let spec = s.spec;
        let n = &mut self.jitted;
        let done: Mutex<HashMap<B256, EvmCompilerFn>> = Mutex::default();
        let err: Mutex<Option<String>> = Mutex::default();
        let comp = std::cell::RefCell::new((c, n));
        let compile = |h: B256, code: &[u8]| -> Option<EvmCompilerFn> {
            if let Some(f) = done.lock().unwrap().get(&h) {
                return Some(*f);
            }
            if keccak256(code) != h {
                *err.lock().unwrap() = Some(format!("asked for code {h} but given {} bytes of another hash", code.len()));
                return None;
            }
            let mut g = comp.borrow_mut();
            let (c, n) = &mut *g;
            **n += 1;
            let _ = c.clear_ir();
            let name = format!("t{}", **n);
            match unsafe { c.jit(&name, code, spec) } {
                Ok(f) => {
                    done.lock().unwrap().insert(h, f);
                    Some(f)
                }
                Err(e) => {
                    *err.lock().unwrap() = Some(format!("compilation failed: {e}"));
                    None
                }
            }
        };
        let db = s.db();
        let fault = db.fault.clone();
        let mut map: revm_primitives::map::B256Map<RawEvmCompilerFn> = Default::default();
        for (_, code) in &s.codes {
            if (!on_miss || r.chance(50)) && !code.is_empty() && r.chance(80)
                && let Some(f) = compile(keccak256(code), code)
            {
                map.insert(keccak256(code), f.into_inner());
            }
        }
        let how = if on_miss { "compiling on a miss" } else { "a map of functions" };
        let sys: Box<dyn Sys + '_> = if on_miss {
            Box::new(SSimple(revmc::JitEvm::with_on_miss(s.plain(db), map, &compile)))
        } else {
            Box::new(SSimple(revmc::JitEvm::new(s.plain(db), map)))
        };
        let res = against(s, exp, sys, fault, false, cfg.single_error, |_, _| {});
        st.count(how, 1);
        st.count("programs_compiled", done.lock().unwrap().len() as u64);
        if let Some(e) = err.lock().unwrap().take() {
            return Err(bad(s, how, (0, e)));
        }
        res.map_err(|e| bad(s, how, e))
    }

    fn alloy(&mut self, r: &mut Rng, st: &mut Stats, s: &Scene, exp: &[Obs]) -> Result<(), Violation> {
        let blocking = r.chance(70);
        let (b, single) = Self::backend(r, blocking);
        let db = s.db();
        let fault = db.fault.clone();
        let rec = Rec::default();
        let f = revmc::alloy_evm::JitEvmFactory::new(b.clone());
        let evm = f.create_evm_with_inspector(db, s.env(), rec.clone());
        let res = against(s, exp, Box::new(SAlloy(evm, Default::default(), rec)), fault, true, single, |k, _| {
            if k < 2 {
                b.clear_resident()
            }
        });
        st.count("alloy", 1);
        st.count("programs_compiled", b.stats().compilations_succeeded);
        res.map_err(|e| bad(s, "alloy", e))
    }

    /// Several EVMs in threads over one service that is being disturbed.
    fn crowd(&mut self, r: &mut Rng, st: &mut Stats, s: &Scene, exp: &[Obs]) -> Result<(), Violation> {
        let blocking = r.chance(50);
        let (b, single) = Self::backend(r, blocking);
        let stop = AtomicBool::new(false);
        let res: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|_| {
                    let b = b.clone();
                    sc.spawn(move || {
                        let mut out = Ok(());
                        for _ in 0..2 {
                            let db = s.db();
                            let fault = db.fault.clone();
                            out = against(s, exp, Box::new(SRt(RtEvm::new(s.plain(db), b.clone()))), fault, false, single, |_, _| {});
                            if out.is_err() {
                                break;
                            }
                        }
                        out
                    })
                })
                .collect();
            let d = b.clone();
            let (stop2, ms) = (&stop, r.range(1, 20) as u64);
            sc.spawn(move || {
                while !stop2.load(Ordering::Relaxed) {
                    d.clear_resident();
                    std::thread::sleep(Duration::from_millis(ms));
                }
            });
            let v = hs.into_iter().map(|h| h.join()).collect();
            stop.store(true, Ordering::Relaxed);
            v
        });
        st.count("crowds", 1);
        for x in res {
            match x {
                Ok(x) => x.map_err(|e| bad(s, "several EVMs over one service", e))?,
                Err(_) => return Err(bad(s, "several EVMs over one service", (0, "a thread panicked".into()))),
            }
        }
        Ok(())
    }
}

/// Whether the code never looks at code.
fn blind(code: &[u8]) -> bool {
    let mut i = 0;
    while i < code.len() {
        if matches!(code[i], op::CODESIZE | op::CODECOPY | op::EXTCODESIZE | op::EXTCODECOPY | op::EXTCODEHASH) {
            return false;
        }
        if (op::PUSH1..=op::PUSH32).contains(&code[i]) {
            i += (code[i] - op::PUSH1 + 1) as usize;
        }
        i += 1;
    }
    true
}

impl Txs {
    /// Functions are dispatched by code hash: contracts whose code is a mere name run as the
    /// function registered under it (or returned on a miss) says.
    fn dispatch(&mut self, r: &mut Rng, st: &mut Stats, pct: u32) -> Result<(), Violation> {
        let mut real = Scene::new(r, pct, false, false, true);
        real.steps.retain(|s| matches!(s, Step::Tx { tx, .. } if tx.kind != TxKind::Create) || matches!(s, Step::Block(_) | Step::Replay | Step::Meddle(_)));
        real.faulty = false;
        let (mut ra, mut rc) = ((*real.back.accts).clone(), (*real.back.codes).clone());
        let (mut fa, mut fc) = (ra.clone(), rc.clone());
        let pool: Vec<_> = real.codes.iter().map(|x| x.0).collect();
        let mut names = vec![];
        for (i, a) in pool.iter().enumerate() {
            let code = loop {
                let c = actor(r, real.spec, &pool, 0);
                if blind(&c) {
                    break c;
                }
            };
            // Names of equal or different lengths, some sharing a prefix.
            let mut name = vec![op::PUSH1, i as u8, op::PUSH1, 0x63, op::SSTORE];
            name.extend(vec![op::INVALID; r.below(40)]);
            for (m, c, bytes) in [(&mut ra, &mut rc, &code), (&mut fa, &mut fc, &name)] {
                let bc = Bytecode::new_legacy(bytes.clone().into());
                let h = bc.hash_slow();
                c.insert(h, bc);
                m.get_mut(a).unwrap().0.code_hash = h;
            }
            names.push((name, code));
        }
        real.codes = pool.iter().copied().zip(names.iter().map(|x| x.1.clone())).collect();
        let back = Back { accts: Arc::new(fa), codes: Arc::new(fc) };
        real.back = Back { accts: Arc::new(ra), codes: Arc::new(rc) };
        let mut exp = observe_all(&real, false, st);
        if self.jitted > 150 {
            self.jit = None;
            self.jitted = 0;
        }
        let c = self.jit.get_or_insert_with(new_compiler);
        let mut cfg = Cfg::random(r);
        cfg.opt = 0;
        apply(c, &cfg);
        let mut map: revm_primitives::map::B256Map<RawEvmCompilerFn> = Default::default();
        let mut missed: HashMap<B256, (EvmCompilerFn, Vec<u8>)> = HashMap::new();
        for (name, code) in &names {
            self.jitted += 1;
            let _ = c.clear_ir();
            let f = unsafe { c.jit(&format!("t{}", self.jitted), code, real.spec) }
                .map_err(|e| bad(&real, "dispatch", (0, format!("compilation failed: {e}"))))?;
            if r.chance(50) {
                map.insert(keccak256(name), f.into_inner());
            } else {
                missed.insert(keccak256(name), (f, name.clone()));
            }
        }
        let wrong = Mutex::new(None);
        let on_miss = |h: B256, code: &[u8]| {
            if keccak256(code) != h {
                *wrong.lock().unwrap() = Some(format!("a miss for {h} came with other code: {}", revm_primitives::hex::encode(code)));
            }
            if map_has(&names, h, code) && !missed.contains_key(&h) {
                *wrong.lock().unwrap() = Some(format!("a miss for {h}, which is in the map"));
            }
            missed.get(&h).map(|x| x.0)
        };
        fn map_has(names: &[(Vec<u8>, Vec<u8>)], h: B256, _: &[u8]) -> bool {
            names.iter().any(|(n, _)| keccak256(n) == h)
        }
        // Code hashes differ by construction.
        let strip = |o: &mut Vec<BTreeMap<Address, Acct>>| {
            for m in o {
                for x in m.values_mut() {
                    x.code_hash = B256::ZERO;
                }
            }
        };
        let desc = |e: &mut Vec<Ev>| e.retain(|x| !matches!(x, Ev::Init(_)));
        for e in &mut exp {
            strip(&mut e.states);
            desc(&mut e.evs);
        }
        let db = Db { inner: CacheDB::new(back), fault: Default::default() };
        let sys: Box<dyn Sys + '_> = Box::new(SSimple(revmc::JitEvm::with_on_miss(real.plain(db), map, on_miss)));
        let mut run = Runner::new(sys, Default::default());
        st.count("dispatch", 1);
        let how = "dispatch by code hash";
        for (i, (step, e)) in real.steps.iter().zip(&exp).enumerate() {
            let mut g = run.step(step, false, &mut |_, _| {});
            strip(&mut g.states);
            desc(&mut g.evs);
            let c = match (&e.res, &g.res) {
                (Some(a), Some(b)) => cmp_res(a, b, cfg.single_error),
                (None, None) => Ok(()),
                (a, b) => Err(format!("{b:?}, reference {a:?}")),
            };
            c.and_then(|_| cmp_events(&e.evs, &g.evs, cfg.single_error))
                .and_then(|_| if e.states == g.states { Ok(()) } else { Err(format!("state {:?}, reference {:?}", g.states, e.states)) })
                .map_err(|x| bad(&real, how, (i, x)))?;
        }
        drop(run);
        if let Some(w) = wrong.lock().unwrap().take() {
            return Err(bad(&real, how, (0, w)));
        }
        Ok(())
    }

    /// Which service is asked, and for what.
    fn switch(&mut self, r: &mut Rng, st: &mut Stats, pct: u32) -> Result<(), Violation> {
        let s = Scene::new(r, 0, false, false, false);
        let code = {
            // Spends gas, calls nobody.
            let k = r.range(1, 200) as u64;
            let mut a = Asm::new();
            a.pushu(k).pushu(r.below(9) as u64).op(op::SSTORE).pushu(0).op(op::CALLDATALOAD).pushu(3).op(op::SSTORE).op(op::STOP);
            a.finish()
        };
        let to = s.codes[0].0;
        let mut accts = (*s.back.accts).clone();
        let mut codes = (*s.back.codes).clone();
        let h = keccak256(&code);
        accts.get_mut(&to).unwrap().0.code_hash = h;
        codes.insert(h, Bytecode::new_legacy(code.clone().into()));
        let db = Db { inner: CacheDB::new(Back { accts: Arc::new(accts), codes: Arc::new(codes) }), fault: Default::default() };
        let mut evm = SRt(RtEvm::new(s.plain(db), JitBackend::disabled()));
        let from = *s.back.accts.iter().find(|(_, v)| v.0.nonce == 0).unwrap().0;
        let mut bs = vec![Self::backend(r, true).0, Self::backend(r, true).0];
        let mut seen: std::collections::HashSet<(usize, SpecId)> = Default::default();
        let mut cur = s.spec;
        let mut at = usize::MAX;
        let mut log = vec![];
        for _ in 0..r.range(3, 8) {
            match r.below(4) {
                0 => {
                    cur = gen_::spec(r);
                    evm.spec(cur);
                    log.push(format!("fork {cur:?}"));
                }
                1 | 2 => {
                    at = r.below(3);
                    let b = bs.get(at).cloned().unwrap_or_else(JitBackend::disabled);
                    evm.backend(b);
                    log.push(format!("service {at}"));
                }
                _ => {}
            }
            let inspect = r.chance(pct.max(25));
            let how = r.below(3);
            let data = Bytes::from(U256::from(r.below(5)).to_be_bytes::<32>());
            let tx = TxEnv { caller: from, kind: TxKind::Call(to), data: data.clone(), gas_limit: 5_000_000, gas_price: 10, chain_id: Some(1), ..Default::default() };
            let res = match how {
                0 => evm.tx(tx, inspect),
                1 => {
                    evm.0.inner_mut().ctx.tx = tx;
                    evm.replay().unwrap()
                }
                _ => evm.system(from, to, data, inspect).unwrap(),
            };
            log.push(format!("run {how} inspect={inspect}"));
            let st_ = evm.finalize();
            evm.commit(st_);
            if !matches!(res, Ok(ExecutionResult::Success { .. })) {
                return Err(Violation::new(format!("a call that stores two values gave {res:?}"), json!({"log": log})));
            }
            if at < 2 {
                seen.insert((at, cur));
            }
            for (i, b) in bs.iter().enumerate() {
                for spec in [cur, s.spec, SpecId::CANCUN, SpecId::FRONTIER] {
                    let got = b.get_compiled(h, spec).is_some();
                    if got != seen.contains(&(i, spec)) {
                        return Err(Violation::new(
                            format!("service {i} {} the contract for fork {spec:?}, which it was {}asked for", if got { "compiled" } else { "did not compile" }, if got { "not " } else { "" }),
                            json!({"log": log}),
                        ));
                    }
                }
            }
        }
        st.count("switches", 1);
        bs.clear();
        Ok(())
    }
}

impl Check for Txs {
    fn case(&mut self, _index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let r = &mut Rng::new(seed);
        let pct = if self.inspect { 85 } else { 0 };
        let kind = r.below(9);
        if kind == 8 {
            st.evals += 1;
            st.nontrivial(seed);
            return if r.chance(70) { self.dispatch(r, st, pct) } else { self.switch(r, st, pct) };
        }
        let s = Scene::new(r, pct, kind < 2, !matches!(kind, 3 | 4), !matches!(kind, 5 | 6));
        crate::fw::current(json!({"scene": s.describe(), "kind": kind}));
        let alloy = kind == 5 || kind == 6;
        let exp = observe_all(&s, alloy, st);
        st.evals += 1;
        if exp.iter().any(|o| matches!(o.res, Some(Ok(ExecutionResult::Success { .. })))) {
            st.nontrivial(seed);
        }
        match kind {
            0 => self.service(r, st, &s, &exp, false),
            1 | 2 => self.service(r, st, &s, &exp, true),
            3 => self.simple(r, st, &s, &exp, true),
            4 => self.simple(r, st, &s, &exp, false),
            5 | 6 => self.alloy(r, st, &s, &exp),
            _ => self.crowd(r, st, &s, &exp),
        }
    }
}
