//! Runs one bytecode in the reference interpreter and as compiled code, in the same world, through
//! every suspension, and records what each of them did.
use crate::{
    env::{Event, MiniHost, World},
    rng::{Rng, hash_bytes},
};
use revm_bytecode::Bytecode;
use revm_interpreter::{
    CallInput, CallInputs, CreateInputs, FrameInput, Gas, Host, InputsImpl, InstructionResult,
    Interpreter, InterpreterAction, InterpreterResult, SharedMemory,
    instructions::{gas_table_spec, instruction_table},
    interpreter::{EthInterpreter, ExtBytecode},
    interpreter_types::{ReturnData, RuntimeFlag, StackTr},
};
use revm_primitives::{Address, B256, Bytes, U256, hardfork::SpecId};
use revmc::{EvmCompilerFn, EvmContext, EvmStack};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GasRec {
    pub remaining: u64,
    pub refunded: i64,
    pub reservoir: u64,
    pub state_spent: i64,
    pub mem_words: usize,
    pub mem_cost: u64,
}

impl GasRec {
    pub fn of(g: &Gas) -> Self {
        Self {
            remaining: g.remaining(),
            refunded: g.refunded(),
            reservoir: g.reservoir(),
            state_spent: g.state_gas_spent(),
            mem_words: g.memory().words_num,
            mem_cost: g.memory().expansion_cost,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Action {
    Call {
        input: Vec<u8>,
        ret_range: std::ops::Range<usize>,
        gas_limit: u64,
        reservoir: u64,
        bytecode_address: Address,
        known: (B256, Vec<u8>),
        target: Address,
        caller: Address,
        value: String,
        scheme: String,
        is_static: bool,
        charged: bool,
    },
    Create {
        caller: Address,
        scheme: String,
        value: U256,
        init_code: Bytes,
        gas_limit: u64,
        reservoir: u64,
    },
    Return { result: InstructionResult, output: Bytes },
    Empty,
}

/// State of the frame when control left it (suspension or end).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Seg {
    pub action: Action,
    pub stack: Vec<U256>,
    pub memory: Vec<u8>,
    pub gas: GasRec,
    pub return_data: Vec<u8>,
    pub events_upto: usize,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub segs: Vec<Seg>,
    pub events: Vec<Event>,
    pub result: InstructionResult,
    pub parent_mem_ok: bool,
    pub opcodes: Vec<u8>,
    /// More suspensions than `max_segs`: the run was cut there.
    pub cut: bool,
    pub post_storage: Vec<((Address, U256), U256)>,
}

impl Trace {
    pub fn halted(&self) -> bool {
        self.result.is_halt()
    }
    pub fn spent(&self, limit: u64) -> u64 {
        limit - self.segs.last().map_or(limit, |s| s.gas.remaining).min(limit)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// `EvmCompilerFn::call_with_interpreter`, as the frame runners use it.
    Wrapper,
    /// Raw `EvmCompilerFn::call` on a guard-paged stack.
    Guarded,
}

pub const MAX_SEGS: usize = 40;

/// 1024-word stack between inaccessible pages; one side is flush with a guard page.
pub struct GuardedStack {
    base: *mut u8,
    total: usize,
    stack: *mut u8,
    slack: (*mut u8, usize),
}

impl GuardedStack {
    pub fn new(flush_high: bool) -> Self {
        let page = 4096usize;
        let size = EvmStack::SIZE;
        let inner = size.div_ceil(page) * page;
        let total = inner + 2 * 16 * page;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(base as isize != -1);
            let lo = base.add(16 * page);
            assert_eq!(libc::mprotect(lo.cast(), inner, libc::PROT_READ | libc::PROT_WRITE), 0);
            let off = if flush_high { inner - size } else { 0 };
            let stack = lo.add(off);
            // 1024 * 32 is page aligned, so both sides are flush in practice.
            Self { base, total, stack, slack: (lo, off) }
        }
    }
    pub fn fill(&mut self, b: u8) {
        unsafe { std::ptr::write_bytes(self.stack, b, EvmStack::SIZE) }
        let _ = self.slack;
    }
    pub fn get(&mut self) -> &'static mut EvmStack {
        unsafe { EvmStack::from_mut_ptr(self.stack.cast()) }
    }
}

impl Drop for GuardedStack {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

const PARENT_BYTE: u8 = 0xa7;

struct Frame {
    parent: SharedMemory,
    interp: Interpreter,
}

fn make_frame(w: &World, code: &Bytecode, gas_limit: u64) -> Frame {
    let mut parent = SharedMemory::new();
    let shared = w.shared_input && !w.calldata.is_empty();
    let cd_space = if shared { w.calldata.len().div_ceil(32) * 32 } else { 0 };
    let plen = w.parent_mem + cd_space;
    parent.resize(plen);
    if plen > 0 {
        parent.set(0, &vec![PARENT_BYTE; plen]);
        if shared {
            parent.set(w.parent_mem, &w.calldata);
        }
    }
    let memory = parent.new_child_context();
    let input = InputsImpl {
        target_address: w.target,
        bytecode_address: Some(w.target),
        caller_address: w.caller,
        input: if shared {
            CallInput::SharedBuffer(w.parent_mem..w.parent_mem + w.calldata.len())
        } else {
            CallInput::Bytes(Bytes::from(w.calldata.clone()))
        },
        call_value: w.value,
    };
    let mut interp = Interpreter::new(
        memory,
        ExtBytecode::new(code.clone()),
        input,
        w.is_static,
        w.spec,
        gas_limit,
    );
    if w.eip8037 {
        interp.gas = Gas::new_with_regular_gas_and_reservoir(gas_limit, w.reservoir);
    }
    interp.return_data.set_buffer(Bytes::from(w.return_data.clone()));
    Frame { parent, interp }
}

fn parent_intact(f: &Frame, w: &World) -> bool {
    let shared = w.shared_input && !w.calldata.is_empty();
    let cd_space = if shared { w.calldata.len().div_ceil(32) * 32 } else { 0 };
    let plen = w.parent_mem + cd_space;
    if plen == 0 {
        return true;
    }
    let m = f.parent.global_slice_range(0..plen);
    for (i, &b) in m.iter().enumerate() {
        let want = if shared && i >= w.parent_mem && i - w.parent_mem < w.calldata.len() {
            w.calldata[i - w.parent_mem]
        } else {
            PARENT_BYTE
        };
        if b != want {
            return false;
        }
    }
    true
}

fn rec_call(c: &CallInputs, mem: &SharedMemory) -> Action {
    Action::Call {
        input: match &c.input {
            CallInput::Bytes(b) => b.to_vec(),
            CallInput::SharedBuffer(r) if r.is_empty() => vec![],
            CallInput::SharedBuffer(r) => mem.global_slice_range(r.clone()).to_vec(),
        },
        ret_range: if c.return_memory_offset.is_empty() {
            0..0
        } else {
            c.return_memory_offset.clone()
        },
        gas_limit: c.gas_limit,
        reservoir: c.reservoir,
        bytecode_address: c.bytecode_address,
        known: (c.known_bytecode.0, c.known_bytecode.1.original_byte_slice().to_vec()),
        target: c.target_address,
        caller: c.caller,
        value: format!("{:?}", c.value),
        scheme: format!("{:?}", c.scheme),
        is_static: c.is_static,
        charged: c.charged_new_account_state_gas,
    }
}

fn rec_create(c: &CreateInputs) -> Action {
    Action::Create {
        caller: c.caller(),
        scheme: format!("{:?}", c.scheme()),
        value: c.value(),
        init_code: c.init_code().clone(),
        gas_limit: c.gas_limit(),
        reservoir: c.reservoir(),
    }
}

/// The child frame's outcome: a deterministic function of the world and of what was asked for.
fn outcome(w: &World, n: usize, a: &Action) -> (InterpreterResult, Option<Address>) {
    let (gl, key, res) = match a {
        Action::Call { gas_limit, input, target, reservoir, .. } => {
            (*gas_limit, hash_bytes(target.0[19] as u64, input), *reservoir)
        }
        Action::Create { gas_limit, init_code, reservoir, .. } => {
            (*gas_limit, hash_bytes(1, init_code), *reservoir)
        }
        _ => unreachable!(),
    };
    let mut r = Rng::new(w.seed ^ key ^ (n as u64) << 40);
    let result = match r.below(8) {
        0..=2 => InstructionResult::Return,
        3 => InstructionResult::Stop,
        4 | 5 => InstructionResult::Revert,
        6 => InstructionResult::OutOfGas,
        _ => InstructionResult::CallTooDeep,
    };
    let mut gas = Gas::new_with_regular_gas_and_reservoir(gl, res);
    let spend = match r.below(4) {
        0 => 0,
        1 => gl,
        2 => gl / 2,
        _ => gl.min(r.u64() % 3000),
    };
    let _ = gas.record_regular_cost(spend);
    if r.chance(40) {
        gas.record_refund(r.below(5000) as i64 - 1000);
    }
    let out = match r.below(5) {
        0 => vec![],
        1 => r.bytes(32),
        2 => {
            let n = r.below(64);
            r.bytes(n)
        }
        3 => {
            let mut v = vec![0u8; 64];
            v[31] = r.below(3) as u8;
            v
        }
        _ => {
            let n = r.below(200);
            r.bytes(n)
        }
    };
    let out = if result == InstructionResult::Stop || result.is_halt() { vec![] } else { out };
    let addr = Address::from_word(B256::from(U256::from(r.u64())));
    let created = (result.is_ok() && !r.chance(10)).then_some(addr);
    (InterpreterResult { result, output: Bytes::from(out), gas }, created)
}

/// Side effects of the child on shared state (reentrancy, warming).
fn child_effects(w: &World, n: usize, host: &mut MiniHost<'_>) {
    let mut r = Rng::new(w.seed ^ 0xc0ffee ^ n as u64);
    if r.chance(40) {
        let k = U256::from(r.below(4));
        let v = r.word();
        host.storage.insert((w.target, k), v);
        host.warm_slots.insert((w.target, k));
    }
    if r.chance(30) {
        host.transient.insert((w.target, U256::from(r.below(4))), r.word());
    }
}

/// Same steps as revm's frame `return_result`.
fn insert(interp: &mut Interpreter, w: &World, a: &Action, n: usize) {
    let (res, created) = outcome(w, n, a);
    // The child used the shared buffer above this frame's memory.
    {
        let mut child = interp.memory.new_child_context();
        let l = 32 * (1 + (w.seed as usize + n) % 700);
        child.resize(l);
        child.set(0, &[0xEEu8; 32]);
        child.set(l - 32, &[0xEEu8; 32]);
    }
    interp.memory.free_child_context();
    match a {
        Action::Call { ret_range, .. } => {
            let ins = res.result;
            let n = res.output.len().min(ret_range.len());
            interp.return_data.set_buffer(res.output);
            let _ = interp.stack.push(if ins.is_ok() { U256::from(1) } else { U256::ZERO });
            if ins.is_ok_or_revert() {
                interp.gas.erase_cost(res.gas.remaining());
                if n > 0 {
                    interp.memory.set(ret_range.start, &interp.return_data.buffer()[..n]);
                }
            }
            revm_handler::handle_reservoir_remaining_gas(ins, &mut interp.gas, &res.gas);
            if ins.is_ok() {
                interp.gas.record_refund(res.gas.refunded());
            }
        }
        Action::Create { .. } => {
            let ins = res.result;
            if ins == InstructionResult::Revert {
                interp.return_data.set_buffer(res.output.clone());
            } else {
                interp.return_data.clear();
            }
            if ins.is_ok_or_revert() {
                interp.gas.erase_cost(res.gas.remaining());
            }
            revm_handler::handle_reservoir_remaining_gas(ins, &mut interp.gas, &res.gas);
            let failed = created.is_none() || !ins.is_ok();
            if failed && w.eip8037 {
                interp.gas.refill_reservoir(w.gas_params.create_state_gas());
            }
            let item = if ins.is_ok() {
                interp.gas.record_refund(res.gas.refunded());
                created.unwrap_or_default().into_word().into()
            } else {
                U256::ZERO
            };
            let _ = interp.stack.push(item);
        }
        _ => unreachable!(),
    }
}

fn drive<'w>(
    w: &'w World,
    code: &Bytecode,
    gas_limit: u64,
    mut run: impl FnMut(&mut Interpreter, &mut MiniHost<'w>, usize) -> InterpreterAction,
) -> Trace {
    let mut f = make_frame(w, code, gas_limit);
    let mut host = MiniHost::new(w);
    let mut segs = Vec::new();
    let mut cut = false;
    let result = loop {
        let action = run(&mut f.interp, &mut host, segs.len());
        let rec = match &action {
            InterpreterAction::Return(r) => {
                Action::Return { result: r.result, output: r.output.clone() }
            }
            InterpreterAction::NewFrame(FrameInput::Call(c)) => rec_call(c, &f.interp.memory),
            InterpreterAction::NewFrame(FrameInput::Create(c)) => rec_create(c),
            InterpreterAction::NewFrame(FrameInput::Empty) => Action::Empty,
        };
        let gas = match &action {
            InterpreterAction::Return(r) => GasRec::of(&r.gas),
            _ => GasRec::of(&f.interp.gas),
        };
        let halt = matches!(&rec, Action::Return { result, .. } if result.is_halt());
        segs.push(Seg {
            action: rec.clone(),
            stack: if halt { vec![] } else { f.interp.stack.data().to_vec() },
            memory: if halt { vec![] } else { f.interp.memory.context_memory().to_vec() },
            gas,
            return_data: if halt { vec![] } else { f.interp.return_data.buffer().to_vec() },
            events_upto: host.events.len(),
        });
        match rec {
            Action::Return { result, .. } => break result,
            Action::Empty => break InstructionResult::FatalExternalError,
            _ => {}
        }
        if segs.len() >= MAX_SEGS {
            cut = true;
            break InstructionResult::Stop;
        }
        child_effects(w, segs.len(), &mut host);
        insert(&mut f.interp, w, &rec, segs.len());
    };
    let mut post_storage: Vec<_> = host.storage.iter().map(|(k, v)| (*k, *v)).collect();
    post_storage.sort();
    Trace {
        segs,
        result,
        parent_mem_ok: parent_intact(&f, w),
        events: host.events,
        opcodes: vec![],
        cut,
        post_storage,
    }
}

/// Reference run. `cover`, when given, is incremented per executed opcode.
pub fn run_interp(
    w: &World,
    code: &Bytecode,
    gas_limit: u64,
    cover: Option<&mut [u64; 256]>,
) -> Trace {
    let table = instruction_table::<EthInterpreter, MiniHost<'_>>();
    let gas_table = gas_table_spec(w.spec);
    match cover {
        None => drive(w, code, gas_limit, |i, h, _| i.run_plain(&table, &gas_table, h)),
        Some(cov) => drive(w, code, gas_limit, |i, h, _| {
            use revm_interpreter::interpreter_types::{Jumps, LoopControl};
            // Same loop as `run_plain`, observing each opcode.
            let e = loop {
                cov[i.bytecode.opcode() as usize] += 1;
                if let Err(e) = i.step(&table, &gas_table, h) {
                    break e;
                }
            };
            if i.bytecode.action().is_none() {
                i.halt(e);
            }
            i.take_next_action()
        }),
    }
}

pub fn run_jit(
    w: &World,
    code: &Bytecode,
    gas_limit: u64,
    f: EvmCompilerFn,
    mode: Mode,
    gs: &mut GuardedStack,
) -> Trace {
    match mode {
        Mode::Wrapper => drive(w, code, gas_limit, |i, h, _| unsafe { f.call_with_interpreter(i, h) }),
        Mode::Guarded => {
            gs.fill(0x5c);
            drive(w, code, gas_limit, |i, h, _| unsafe {
                let stack = gs.get();
                // Move the frame's stack into the guarded buffer.
                let mut len = i.stack.len();
                std::ptr::copy_nonoverlapping(
                    i.stack.data().as_ptr().cast::<u8>(),
                    stack.as_mut_ptr().cast::<u8>(),
                    len * 32,
                );
                i.bytecode.action = None;
                let host: &mut dyn Host = h;
                let mut ecx = EvmContext::from_interpreter(i, host);
                let result = f.call(stack, &mut len, &mut ecx);
                let resume_at = ecx.resume_at;
                if result == InstructionResult::OutOfGas {
                    ecx.gas.spend_all();
                }
                let clear = ecx.return_data.is_empty();
                let gas = ecx.gas;
                i.gas = gas;
                if clear {
                    i.return_data.0.clear();
                }
                resume_at.store(i);
                i.stack.clear();
                if len <= 1024 {
                    let words = std::slice::from_raw_parts(stack.as_ptr().cast::<U256>(), len);
                    for wd in words {
                        let _ = i.stack.push(*wd);
                    }
                }
                match i.bytecode.action.take() {
                    Some(a) => a,
                    None => InterpreterAction::Return(InterpreterResult {
                        result,
                        output: Bytes::new(),
                        gas: i.gas,
                    }),
                }
            })
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct CmpOpts {
    /// Final stack is observable.
    pub final_stack: bool,
    /// Failure reasons are compared (single_error off).
    pub reasons: bool,
}

fn oogish(r: InstructionResult) -> bool {
    use InstructionResult::*;
    matches!(
        r,
        StackOverflow
            | StackUnderflow
            | OutOfGas
            | MemoryOOG
            | InvalidOperandOOG
            | MemoryLimitOOG
            | PrecompileOOG
            | ReentrancySentryOOG
    )
}

/// Reports of failure may name another reason when the compiled code's section-granular checks run
/// earlier (or later) than the interpreter's per-instruction ones, and when two reasons apply to
/// the same instruction.
fn reason_may_differ(exp: InstructionResult, got: InstructionResult) -> bool {
    use InstructionResult::*;
    oogish(exp) || oogish(got) || (exp == StateChangeDuringStaticCall && got == NotActivated)
}

/// Returns a description of the first difference.
pub fn compare(exp: &Trace, got: &Trace, o: CmpOpts) -> Result<(), String> {
    if !got.parent_mem_ok {
        return Err("memory of the parent frame was modified".into());
    }
    let exp_halt = exp.halted();
    let got_halt = got.halted();
    // A halting run may stop before a suspension the reference reached (section-granular checks);
    // nothing of a halted frame is observable, so only the verdict must agree.
    if exp_halt || got_halt {
        if exp_halt != got_halt {
            return Err(format!("result {:?}, reference {:?}", got.result, exp.result));
        }
        if o.reasons && got.result != exp.result && !reason_may_differ(exp.result, got.result) {
            return Err(format!("failure reason {:?}, reference {:?}", got.result, exp.result));
        }
        // Everything that was visible outside before the halt is a prefix of the reference's
        // (suspended calls run child frames).
        let n = got.segs.len().min(exp.segs.len()).saturating_sub(1);
        if got.segs.len() > exp.segs.len() {
            return Err(format!(
                "halted with {:?} after {} exits, reference with {:?} after {}; last common exit {:?}",
                got.result,
                got.segs.len(),
                exp.result,
                exp.segs.len(),
                &got.segs[exp.segs.len() - 1]
            ));
        }
        for i in 0..n {
            cmp_seg(&exp.segs[i], &got.segs[i], i, true)?;
        }
        return Ok(());
    }
    if got.result != exp.result {
        return Err(format!("result {:?}, reference {:?}", got.result, exp.result));
    }
    if exp.segs.len() != got.segs.len() {
        return Err(format!("{} exits, reference {}", got.segs.len(), exp.segs.len()));
    }
    let last = exp.segs.len() - 1;
    for i in 0..exp.segs.len() {
        let fin = i == last && !exp.cut;
        cmp_seg(&exp.segs[i], &got.segs[i], i, !fin || o.final_stack)?;
    }
    if exp.events != got.events {
        let i = exp.events.iter().zip(&got.events).position(|(a, b)| a != b);
        let i = i.unwrap_or(exp.events.len().min(got.events.len()));
        return Err(format!(
            "host interaction #{i}: {:?}, reference {:?}",
            got.events.get(i),
            exp.events.get(i)
        ));
    }
    if exp.post_storage != got.post_storage {
        return Err("final storage differs".into());
    }
    Ok(())
}

fn cmp_seg(e: &Seg, g: &Seg, i: usize, stack: bool) -> Result<(), String> {
    if e.action != g.action {
        return Err(format!("exit #{i}: action {:?}, reference {:?}", g.action, e.action));
    }
    if e.gas != g.gas {
        return Err(format!("exit #{i}: gas {:?}, reference {:?}", g.gas, e.gas));
    }
    if stack && e.stack != g.stack {
        return Err(format!("exit #{i}: stack {:x?}, reference {:x?}", g.stack, e.stack));
    }
    if e.memory != g.memory {
        let p = e.memory.iter().zip(&g.memory).position(|(a, b)| a != b);
        return Err(format!(
            "exit #{i}: memory differs at {p:?} (len {}, reference {})",
            g.memory.len(),
            e.memory.len()
        ));
    }
    if e.return_data != g.return_data {
        return Err(format!("exit #{i}: return data buffer differs"));
    }
    Ok(())
}

pub fn spec_name(s: SpecId) -> String {
    format!("{s:?}")
}

pub fn runtime_is_static(i: &Interpreter) -> bool {
    i.runtime_flag.is_static()
}
