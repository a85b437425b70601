//! Program generators.
use crate::{env::addr_pool, rng::Rng};
use revm_bytecode::opcode as op;
use revm_primitives::{U256, hardfork::SpecId};

pub const SPECS: [SpecId; 15] = [
    SpecId::FRONTIER,
    SpecId::HOMESTEAD,
    SpecId::TANGERINE,
    SpecId::SPURIOUS_DRAGON,
    SpecId::BYZANTIUM,
    SpecId::PETERSBURG,
    SpecId::ISTANBUL,
    SpecId::BERLIN,
    SpecId::LONDON,
    SpecId::MERGE,
    SpecId::SHANGHAI,
    SpecId::CANCUN,
    SpecId::PRAGUE,
    SpecId::OSAKA,
    SpecId::AMSTERDAM,
];

pub fn spec(r: &mut Rng) -> SpecId {
    if r.chance(45) {
        *r.pick(&[SpecId::CANCUN, SpecId::PRAGUE, SpecId::OSAKA, SpecId::AMSTERDAM])
    } else {
        *r.pick(&SPECS)
    }
}

/// Emphasis of a generated program; relative weights of the op families.
#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub arith: u32,
    pub stack: u32,
    pub mem: u32,
    pub copy: u32,
    pub storage: u32,
    pub env: u32,
    pub acct: u32,
    pub log: u32,
    pub call: u32,
    pub create: u32,
    pub gas: u32,
    pub keccak: u32,
    pub raw: u32,
}

pub const MIX_ALL: Mix = Mix {
    arith: 30,
    stack: 14,
    mem: 14,
    copy: 8,
    storage: 8,
    env: 8,
    acct: 4,
    log: 3,
    call: 4,
    create: 1,
    gas: 3,
    keccak: 3,
    raw: 1,
};

pub struct Asm {
    pub code: Vec<u8>,
    labels: Vec<Option<usize>>,
    fixups: Vec<(usize, usize)>,
    /// Estimated stack height.
    pub depth: usize,
}

impl Asm {
    pub fn new() -> Self {
        Self { code: vec![], labels: vec![], fixups: vec![], depth: 0 }
    }
    pub fn op(&mut self, o: u8) -> &mut Self {
        self.code.push(o);
        self
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.code.extend_from_slice(b);
        self
    }
    pub fn push(&mut self, v: U256) -> &mut Self {
        let b = v.to_be_bytes::<32>();
        let n = 32 - b.iter().take_while(|x| **x == 0).count();
        let n = n.max(1);
        self.code.push(op::PUSH0 + n as u8);
        self.code.extend_from_slice(&b[32 - n..]);
        self.depth += 1;
        self
    }
    pub fn push_n(&mut self, v: U256, n: usize) -> &mut Self {
        let b = v.to_be_bytes::<32>();
        self.code.push(op::PUSH0 + n as u8);
        self.code.extend_from_slice(&b[32 - n..]);
        self.depth += 1;
        self
    }
    pub fn pushu(&mut self, v: u64) -> &mut Self {
        self.push(U256::from(v))
    }
    pub fn label(&mut self) -> usize {
        self.labels.push(None);
        self.labels.len() - 1
    }
    pub fn bind(&mut self, l: usize) {
        self.labels[l] = Some(self.code.len());
    }
    pub fn place(&mut self, l: usize) {
        self.bind(l);
        self.op(op::JUMPDEST);
    }
    pub fn push_label(&mut self, l: usize) -> &mut Self {
        self.code.push(op::PUSH2);
        self.fixups.push((self.code.len(), l));
        self.code.extend_from_slice(&[0, 0]);
        self.depth += 1;
        self
    }
    pub fn finish(mut self) -> Vec<u8> {
        for (at, l) in &self.fixups {
            let t = self.labels[*l].unwrap_or(0xffff).min(0xffff);
            self.code[*at] = (t >> 8) as u8;
            self.code[*at + 1] = t as u8;
        }
        self.code
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub spec: SpecId,
    pub mix: Mix,
    pub world_seed: u64,
    pub a: Asm,
}

const BIN: &[u8] = &[
    op::ADD, op::MUL, op::SUB, op::DIV, op::SDIV, op::MOD, op::SMOD, op::EXP, op::SIGNEXTEND,
    op::LT, op::GT, op::SLT, op::SGT, op::EQ, op::AND, op::OR, op::XOR, op::BYTE, op::SHL, op::SHR,
    op::SAR,
];
const UN: &[u8] = &[op::ISZERO, op::NOT, op::CLZ];
const TER: &[u8] = &[op::ADDMOD, op::MULMOD];
const ENV0: &[u8] = &[
    op::ADDRESS, op::ORIGIN, op::CALLER, op::CALLVALUE, op::CALLDATASIZE, op::CODESIZE,
    op::GASPRICE, op::RETURNDATASIZE, op::COINBASE, op::TIMESTAMP, op::NUMBER, op::DIFFICULTY,
    op::GASLIMIT, op::CHAINID, op::SELFBALANCE, op::BASEFEE, op::BLOBBASEFEE, op::PC, op::MSIZE,
    op::SLOTNUM,
];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, spec: SpecId, world_seed: u64, mix: Mix) -> Self {
        Self { r, spec, mix, world_seed, a: Asm::new() }
    }

    fn avail(&self, o: u8) -> bool {
        let need = match o {
            op::SHL | op::SHR | op::SAR | op::EXTCODEHASH | op::CREATE2 => SpecId::PETERSBURG,
            op::CLZ => SpecId::OSAKA,
            op::SLOTNUM | op::DUPN | op::SWAPN | op::EXCHANGE => SpecId::AMSTERDAM,
            op::RETURNDATASIZE | op::RETURNDATACOPY | op::STATICCALL | op::REVERT => SpecId::BYZANTIUM,
            op::CHAINID | op::SELFBALANCE => SpecId::ISTANBUL,
            op::BASEFEE => SpecId::LONDON,
            op::PUSH0 => SpecId::SHANGHAI,
            op::BLOBBASEFEE | op::BLOBHASH | op::TLOAD | op::TSTORE | op::MCOPY => SpecId::CANCUN,
            op::DELEGATECALL => SpecId::HOMESTEAD,
            _ => return true,
        };
        self.spec.is_enabled_in(need)
    }

    /// Mostly only emits opcodes the fork has.
    fn ok(&mut self, o: u8) -> bool {
        self.avail(o) || self.r.below(400) == 0
    }

    fn c(&mut self, v: U256) {
        if v.is_zero() && self.avail(op::PUSH0) && self.r.chance(50) {
            self.a.op(op::PUSH0);
            self.a.depth += 1;
        } else if self.r.chance(5) {
            self.a.push_n(v, 32);
        } else {
            self.a.push(v);
        }
    }

    /// Adds a runtime zero to the top of stack, hiding its value from constant propagation.
    fn obscure(&mut self) {
        match self.r.below(4) {
            0 => {
                self.a.push(U256::from(0xfff0));
                self.a.op(op::CALLDATALOAD).op(op::ADD);
            }
            1 => {
                self.a.push(U256::from(0xfff0));
                self.a.op(op::CALLDATALOAD).op(op::XOR);
            }
            2 => {
                self.a.op(op::CALLVALUE).op(op::CALLVALUE).op(op::XOR).op(op::OR);
                return;
            }
            _ => {
                self.a.op(op::CALLDATASIZE);
                self.a.op(op::CALLDATASIZE).op(op::SUB).op(op::ADD);
                return;
            }
        }
        self.a.depth -= 1;
    }

    /// Pushes a value known to the generator, sometimes hidden from the analysis.
    pub fn val(&mut self, v: U256) {
        self.c(v);
        if self.r.chance(25) {
            self.obscure();
        }
    }

    /// Pushes some word.
    pub fn any(&mut self) {
        match self.r.below(10) {
            0..=3 => {
                let v = self.r.word();
                self.c(v);
            }
            4..=6 if self.a.depth > 0 => {
                let n = self.r.range(1, self.a.depth.min(16));
                self.a.op(op::DUP1 + n as u8 - 1);
                self.a.depth += 1;
            }
            7 => {
                let o = U256::from(32 * self.r.below(4));
                self.c(o);
                self.a.op(op::CALLDATALOAD);
            }
            8 => {
                let o = self.off();
                self.val(o);
                self.a.op(op::MLOAD);
            }
            _ => {
                let v = self.r.word();
                self.val(v);
            }
        }
    }

    fn off(&mut self) -> U256 {
        match self.r.below(40) {
            0 => U256::from(u64::MAX) - U256::from(self.r.below(64)),
            1 => U256::MAX - U256::from(self.r.below(40)),
            2 => U256::from(self.r.below(20000)),
            3 => U256::from(u32::MAX) - U256::from(self.r.below(40)),
            4..=15 => U256::from(32 * self.r.below(12)),
            _ => U256::from(self.r.below(300)),
        }
    }

    fn len(&mut self) -> U256 {
        match self.r.below(30) {
            0 => U256::from(u64::MAX) - U256::from(self.r.below(64)),
            1 => U256::MAX,
            2 => U256::from(self.r.below(5000)),
            3..=8 => U256::ZERO,
            9..=16 => U256::from(32 * self.r.range(1, 4)),
            _ => U256::from(self.r.below(100)),
        }
    }

    fn addr(&mut self) {
        let p = addr_pool(self.world_seed);
        match self.r.below(8) {
            0 => {
                self.a.op(op::ADDRESS);
                self.a.depth += 1;
            }
            1 => {
                self.a.op(op::CALLER);
                self.a.depth += 1;
            }
            2 => {
                let v = self.r.word();
                self.val(v);
            }
            3 => {
                let v = U256::from(self.r.below(12));
                self.val(v);
            }
            _ => {
                let mut v = U256::from_be_slice(self.r.pick(&p).as_slice());
                if self.r.chance(10) {
                    v |= U256::from(0xdead) << 200; // dirty upper bits
                }
                self.val(v);
            }
        }
    }

    fn key(&mut self) {
        if self.r.chance(80) {
            let v = U256::from(self.r.below(4));
            self.val(v);
        } else {
            self.any();
        }
    }

    fn used(&mut self, pops: usize, pushes: usize) {
        self.a.depth = self.a.depth.saturating_sub(pops) + pushes;
    }

    /// Result of `n` operands: push operands with `f` (last pushed is popped first).
    fn anys(&mut self, n: usize) {
        for _ in 0..n {
            self.any();
        }
    }

    /// Uses whatever is on the stack when deep enough, else pushes.
    fn lazy(&mut self, n: usize) {
        if self.a.depth >= n && self.r.chance(45) {
            return;
        }
        self.anys(n);
    }

    pub fn one(&mut self) {
        let m = self.mix;
        let w = [
            m.arith, m.stack, m.mem, m.copy, m.storage, m.env, m.acct, m.log, m.call, m.create, m.gas,
            m.keccak, m.raw,
        ];
        match self.r.weighted(&w) {
            0 => self.arith(),
            1 => self.stackop(),
            2 => self.memop(),
            3 => self.copy(),
            4 => self.storage(),
            5 => self.env(),
            6 => self.acct(),
            7 => self.log(),
            8 => self.call(),
            9 => self.create(),
            10 => {
                self.a.op(op::GAS);
                self.a.depth += 1;
            }
            11 => {
                let (o, l) = (self.off(), self.len());
                self.val(l);
                self.val(o);
                self.a.op(op::KECCAK256);
                self.used(2, 1);
            }
            _ => {
                let b = self.r.u64() as u8;
                self.a.op(b);
                if (op::PUSH1..=op::PUSH32).contains(&b) {
                    let n = (b - op::PUSH0) as usize;
                    let v = self.r.bytes(n);
                    self.a.raw(&v);
                }
            }
        }
        if self.a.depth > 40 && self.r.chance(50) {
            self.a.op(op::POP);
            self.used(1, 0);
        }
    }

    fn arith(&mut self) {
        match self.r.below(10) {
            0..=6 => {
                let o = *self.r.pick(BIN);
                if !self.ok(o) {
                    return;
                }
                self.lazy(2);
                match o {
                    op::BYTE | op::SHL | op::SHR | op::SAR | op::SIGNEXTEND if self.r.chance(70) => {
                        let v = match self.r.below(4) {
                            0 => U256::from(self.r.below(34)),
                            1 => U256::from(self.r.below(258)),
                            2 => self.r.word(),
                            _ => U256::from(8 * self.r.below(33)),
                        };
                        self.val(v);
                    }
                    op::EXP if self.r.chance(60) => {
                        let e = match self.r.below(3) {
                            0 => U256::from(self.r.below(10)),
                            1 => U256::from(self.r.below(300)),
                            _ => self.r.word(),
                        };
                        let b = match self.r.below(3) {
                            0 => U256::from(self.r.below(11)),
                            1 => U256::from(1) << self.r.below(256),
                            _ => self.r.word(),
                        };
                        self.val(e);
                        self.val(b);
                    }
                    op::DIV | op::SDIV | op::MOD | op::SMOD if self.r.chance(40) => {
                        let d = match self.r.below(4) {
                            0 => U256::ZERO,
                            1 => U256::from(1) << self.r.below(256),
                            2 => U256::MAX,
                            _ => self.r.word(),
                        };
                        self.val(d);
                        self.any();
                    }
                    _ => {}
                }
                // Operands beyond the two needed stay on the stack.
                self.a.op(o);
                self.used(2, 1);
            }
            7 | 8 => {
                let o = *self.r.pick(UN);
                if !self.ok(o) {
                    return;
                }
                self.lazy(1);
                self.a.op(o);
                self.used(1, 1);
            }
            _ => {
                let o = *self.r.pick(TER);
                self.lazy(3);
                self.a.op(o);
                self.used(3, 1);
            }
        }
    }

    fn stackop(&mut self) {
        match self.r.below(10) {
            0..=2 => self.any(),
            3 | 4 => {
                let n = self.r.range(1, 16);
                while self.a.depth < n {
                    self.any();
                    if self.r.chance(3) {
                        break;
                    }
                }
                self.a.op(op::DUP1 + n as u8 - 1);
                self.a.depth += 1;
            }
            5 | 6 => {
                let n = self.r.range(1, 16);
                while self.a.depth < n + 1 {
                    self.any();
                    if self.r.chance(3) {
                        break;
                    }
                }
                self.a.op(op::SWAP1 + n as u8 - 1);
            }
            7 => {
                if self.a.depth > 0 || self.r.chance(1) {
                    self.a.op(op::POP);
                    self.used(1, 0);
                }
            }
            8 if self.avail(op::DUPN) => {
                let o = *self.r.pick(&[op::DUPN, op::SWAPN, op::EXCHANGE]);
                let want = self.r.range(1, 24);
                while self.a.depth < want {
                    let v = U256::from(self.a.depth);
                    self.c(v);
                }
                let imm = match self.r.below(6) {
                    0 => self.r.u64() as u8,
                    1 => 0x5b,
                    2 => 0x80 + self.r.below(10) as u8,
                    _ => self.r.below(0x20) as u8,
                };
                self.a.op(o).op(imm);
                if o == op::DUPN {
                    self.a.depth += 1;
                }
            }
            _ => {
                // PC / JUMPDEST in straight-line code.
                let o = *self.r.pick(&[op::PC, op::JUMPDEST, op::MSIZE]);
                self.a.op(o);
                if o != op::JUMPDEST {
                    self.a.depth += 1;
                }
            }
        }
    }

    fn memop(&mut self) {
        match self.r.below(10) {
            0..=3 => {
                let o = self.off();
                self.any();
                self.val(o);
                self.a.op(op::MSTORE);
                self.used(2, 0);
            }
            4..=6 => {
                let o = self.off();
                self.val(o);
                self.a.op(op::MLOAD);
                self.used(1, 1);
            }
            7 => {
                let o = self.off();
                self.any();
                self.val(o);
                self.a.op(op::MSTORE8);
                self.used(2, 0);
            }
            8 => {
                self.a.op(op::MSIZE);
                self.a.depth += 1;
            }
            _ => {
                if !self.ok(op::MCOPY) {
                    return;
                }
                let (l, s, d) = (self.len(), self.off(), self.off());
                self.val(l);
                self.val(s);
                self.val(d);
                self.a.op(op::MCOPY);
                self.used(3, 0);
            }
        }
    }

    fn copy(&mut self) {
        let o = *self.r.pick(&[
            op::CALLDATACOPY,
            op::CODECOPY,
            op::RETURNDATACOPY,
            op::EXTCODECOPY,
            op::CALLDATALOAD,
            op::CALLDATALOAD,
        ]);
        if !self.ok(o) {
            return;
        }
        if o == op::CALLDATALOAD {
            let v = match self.r.below(4) {
                0 => self.off(),
                1 => self.r.word(),
                _ => U256::from(4 + 32 * self.r.below(4)),
            };
            self.val(v);
            self.a.op(o);
            return;
        }
        let (l, mut s, d) = (self.len(), self.off(), self.off());
        if o == op::RETURNDATACOPY && self.r.chance(70) {
            s = U256::from(self.r.below(8));
            let l = U256::from(self.r.below(12));
            self.val(l);
        } else {
            self.val(l);
        }
        self.val(s);
        self.val(d);
        if o == op::EXTCODECOPY {
            self.addr();
            self.a.op(o);
            self.used(4, 0);
        } else {
            self.a.op(o);
            self.used(3, 0);
        }
    }

    fn storage(&mut self) {
        match self.r.below(8) {
            0..=2 => {
                self.key();
                self.a.op(op::SLOAD);
                self.used(1, 1);
            }
            3..=5 => {
                if self.r.chance(60) {
                    let v = U256::from(self.r.below(3));
                    self.val(v);
                } else {
                    self.any();
                }
                self.key();
                self.a.op(op::SSTORE);
                self.used(2, 0);
            }
            6 => {
                if self.ok(op::TLOAD) {
                    self.key();
                    self.a.op(op::TLOAD);
                    self.used(1, 1);
                }
            }
            _ => {
                if self.ok(op::TSTORE) {
                    self.any();
                    self.key();
                    self.a.op(op::TSTORE);
                    self.used(2, 0);
                }
            }
        }
    }

    fn env(&mut self) {
        match self.r.below(9) {
            // The history window, to the block.
            8 => {
                let k = *self.r.pick(&[0u64, 1, 2, 255, 256, 257, 258, 300]);
                self.val(U256::from(k));
                self.a.op(op::NUMBER);
                self.a.op(op::SUB);
                self.a.op(op::BLOCKHASH);
                self.used(1, 1);
            }
            0 => {
                let v = match self.r.below(4) {
                    3 => U256::from(*self.r.pick(&[42u64, 43, 44, 45, 299, 300, 301])),
                    0 => U256::from(self.r.below(320)),
                    1 => self.r.word(),
                    _ => U256::from(300 - self.r.below(280)),
                };
                self.val(v);
                self.a.op(op::BLOCKHASH);
                self.used(1, 1);
            }
            1 => {
                if self.ok(op::BLOBHASH) {
                    let v = if self.r.chance(70) { U256::from(self.r.below(4)) } else { self.r.word() };
                    self.val(v);
                    self.a.op(op::BLOBHASH);
                    self.used(1, 1);
                }
            }
            _ => {
                let o = *self.r.pick(ENV0);
                if self.ok(o) {
                    self.a.op(o);
                    self.a.depth += 1;
                }
            }
        }
    }

    fn acct(&mut self) {
        let o = *self.r.pick(&[op::BALANCE, op::EXTCODESIZE, op::EXTCODEHASH]);
        if !self.ok(o) {
            return;
        }
        self.addr();
        self.a.op(o);
        self.used(1, 1);
    }

    fn log(&mut self) {
        let n = self.r.below(5);
        self.anys(n);
        let (l, o) = (self.len(), self.off());
        self.val(l);
        self.val(o);
        self.a.op(op::LOG0 + n as u8);
        self.used(n + 2, 0);
    }

    fn small_off(&mut self) -> U256 {
        if self.r.chance(4) { self.off() } else { U256::from(self.r.below(200)) }
    }
    fn small_len(&mut self) -> U256 {
        if self.r.chance(4) { self.len() } else { U256::from(self.r.below(70)) }
    }

    pub fn call(&mut self) {
        let o = *self.r.pick(&[op::CALL, op::CALL, op::CALLCODE, op::DELEGATECALL, op::STATICCALL]);
        if !self.ok(o) {
            return;
        }
        let (ol, oo, il, io) =
            (self.small_len(), self.small_off(), self.small_len(), self.small_off());
        self.val(ol);
        self.val(oo);
        self.val(il);
        self.val(io);
        let mut n = 6;
        if matches!(o, op::CALL | op::CALLCODE) {
            let v = if self.r.chance(60) { U256::ZERO } else { U256::from(self.r.below(5)) };
            self.val(v);
            n = 7;
        }
        self.addr();
        match self.r.below(5) {
            0 => {
                self.a.op(op::GAS);
                self.a.depth += 1;
            }
            1 => self.any(),
            2 => {
                let v = U256::from(self.r.below(100000));
                self.val(v);
            }
            3 => self.val(U256::MAX),
            _ => {
                let v = U256::from(self.r.below(3000));
                self.val(v);
            }
        }
        self.a.op(o);
        self.used(n, 1);
    }

    pub fn create(&mut self) {
        let two = self.avail(op::CREATE2) && self.r.chance(50);
        if two {
            self.any();
        }
        let (l, o) = (self.small_len(), self.small_off());
        let l = if self.r.chance(6) { U256::from(49152 + self.r.below(40)) } else { l };
        self.val(l);
        self.val(o);
        let v = if self.r.chance(60) { U256::ZERO } else { U256::from(self.r.below(5)) };
        self.val(v);
        self.a.op(if two { op::CREATE2 } else { op::CREATE });
        self.used(if two { 4 } else { 3 }, 1);
    }

    pub fn terminator(&mut self) {
        match self.r.below(12) {
            0..=2 => {
                self.a.op(op::STOP);
            }
            3..=6 => {
                let (l, o) = (self.len(), self.off());
                self.val(l);
                self.val(o);
                self.a.op(op::RETURN);
            }
            7 | 8 => {
                let (l, o) = (self.small_len(), self.small_off());
                self.val(l);
                self.val(o);
                self.a.op(if self.avail(op::REVERT) { op::REVERT } else { op::RETURN });
            }
            9 => {
                if self.r.chance(30) {
                    self.a.op(op::INVALID);
                } else {
                    self.a.op(op::STOP);
                }
            }
            10 => {
                if self.mix.acct > 0 {
                    self.addr();
                    self.a.op(op::SELFDESTRUCT);
                }
            }
            _ => {} // fall off the end
        }
    }

    /// Straight-line program.
    pub fn straight(mut self, n: usize) -> Vec<u8> {
        for _ in 0..n {
            self.one();
        }
        self.terminator();
        self.a.finish()
    }

    fn fix_depth(&mut self, want: usize) {
        while self.a.depth > want {
            self.a.op(op::POP);
            self.a.depth -= 1;
        }
        while self.a.depth < want {
            self.any();
        }
    }

    fn cond(&mut self) {
        match self.r.below(10) {
            0 => self.c(U256::ZERO),
            1 => self.c(U256::from(1)),
            2 => {
                let v = U256::from(self.r.below(2));
                self.val(v);
            }
            3..=6 => {
                let o = U256::from(32 * self.r.below(4));
                self.c(o);
                self.a.op(op::CALLDATALOAD);
                if self.r.chance(50) {
                    self.c(U256::from(1));
                    self.a.op(op::AND);
                    self.used(2, 1);
                }
            }
            7 => {
                self.key();
                self.a.op(op::SLOAD);
            }
            8 => {
                self.a.op(op::GAS);
                self.a.depth += 1;
                self.c(U256::from(1));
                self.a.op(op::AND);
                self.used(2, 1);
            }
            _ => self.any(),
        }
        if self.r.chance(15) {
            // Non-zero in the high bits only.
            let k = self.r.range(1, 255);
            self.c(U256::from(k));
            self.a.op(op::SHL);
            self.used(2, 1);
        }
        if self.r.chance(30) {
            self.a.op(op::ISZERO);
        }
    }

    /// Control-flow graph program.
    pub fn cfg(mut self, nblocks: usize, body: usize) -> Vec<u8> {
        let labels: Vec<usize> = (0..nblocks).map(|_| self.a.label()).collect();
        let shared_entry = self.r.below(5);
        let same = self.r.chance(50);
        let entry: Vec<usize> =
            (0..nblocks).map(|i| if i == 0 { 0 } else if same { shared_entry } else { self.r.below(5) }).collect();
        let nfuncs = self.r.below(3);
        // Internal functions: entry [.., args, ret]; leave [.., result].
        let funcs: Vec<(usize, usize, usize)> =
            (0..nfuncs).map(|_| (self.a.label(), self.r.below(3), self.r.below(2))).collect();
        let mut dup_of: Vec<(usize, Vec<u8>)> = vec![];
        if self.r.chance(2) {
            // Destinations far into the code.
            let far = self.a.label();
            let filler = *self.r.pick(&[0xfeu8, 0x00, 0x5b]);
            let n = if filler == 0x5b { self.r.range(0x100, 0x600) } else { self.r.range(0x100, 0xd000) } as usize;
            self.a.push_label(far).op(op::JUMP);
            self.a.raw(&vec![filler; n]);
            self.a.place(far);
        }
        for b in 0..nblocks {
            self.a.depth = entry[b];
            if b == 0 && self.r.chance(50) {
                self.a.bind(labels[b]);
            } else {
                self.a.place(labels[b]);
            }
            // Verbatim duplicates exercise block deduplication.
            if b > 0 && !dup_of.is_empty() && self.r.chance(20) {
                let (d, body) = self.r.pick(&dup_of).clone();
                if d == entry[b] {
                    self.a.raw(&body);
                    continue;
                }
            }
            let start = self.a.code.len();
            let fix0 = self.a.fixups.len();
            let n = self.r.below(body + 1);
            for _ in 0..n {
                self.one();
            }
            self.block_end(b, nblocks, &labels, &entry, &funcs);
            if self.a.fixups.len() == fix0 && self.r.chance(60) {
                dup_of.push((entry[b], self.a.code[start..].to_vec()));
            }
        }
        if self.r.chance(85) {
            self.a.depth = 3;
            self.terminator();
        }
        for &(l, nargs, nres) in &funcs {
            self.a.depth = nargs + 1;
            self.a.place(l);
            // stack: args.. ret  (ret on top)
            let n = self.r.below(3);
            let base = self.a.depth;
            for _ in 0..n {
                self.one();
            }
            let _ = base;
            // Bring the return address to the top: it is at depth index (depth - nargs - 1).
            if self.a.depth < nargs + 1 {
                // destroyed by the body; give up with STOP
                self.a.op(op::STOP);
                continue;
            }
            let at = self.a.depth - nargs; // 1-based from the top
            if at > 16 {
                self.a.op(op::STOP);
                continue;
            }
            self.a.op(op::DUP1 + at as u8 - 1);
            self.a.depth += 1;
            // Keep `nres` results below: simply leave everything, then jump.
            let _ = nres;
            self.a.op(op::JUMP);
        }
        // Data section with embedded 0x5b inside push data.
        if self.r.chance(40) {
            self.a.op(op::PUSH4).raw(&[0x5b, 0x5b, 0x00, 0x5b]);
        }
        if self.r.chance(15) {
            let n = self.r.range(1, 32) as u8;
            let k = self.r.below(n as usize);
            let v = self.r.bytes(k);
            self.a.op(op::PUSH0 + n).raw(&v);
        }
        self.a.finish()
    }

    fn block_end(
        &mut self,
        b: usize,
        nblocks: usize,
        labels: &[usize],
        entry: &[usize],
        funcs: &[(usize, usize, usize)],
    ) {
        let r = self.r.below(100);
        let fwd = |s: &mut Self| {
            if b + 1 < nblocks && s.r.chance(75) { s.r.range(b + 1, nblocks - 1) } else { s.r.below(nblocks) }
        };
        if r < 18 {
            self.terminator();
        } else if r < 38 {
            let t = fwd(self);
            if !self.r.chance(4) {
                self.fix_depth(entry[t]);
            }
            self.a.push_label(labels[t]);
            if self.r.chance(15) {
                self.obscure();
            }
            self.a.op(op::JUMP);
        } else if r < 66 {
            // JUMPI to t, else fall through to b+1.
            let t = fwd(self);
            let nxt = (b + 1).min(nblocks - 1);
            if entry[t] != entry[nxt] && self.r.chance(70) {
                // need equal depth: fall through adjusts afterwards
                self.fix_depth(entry[t]);
                self.cond();
                self.a.push_label(labels[t]).op(op::JUMPI);
                self.used(2, 0);
                self.fix_depth(entry[nxt]);
            } else {
                self.fix_depth(entry[t]);
                self.cond();
                self.a.push_label(labels[t]);
                if self.r.chance(10) {
                    self.obscure();
                }
                self.a.op(op::JUMPI);
                self.used(2, 0);
            }
        } else if r < 76 && !funcs.is_empty() {
            // Internal call: returns to a fresh label and falls through.
            let (l, nargs, _) = *self.r.pick(funcs);
            let ret = self.a.label();
            self.a.push_label(ret);
            // function expects [ret, args...]: the callee DUPs ret
            for _ in 0..nargs {
                self.any();
            }
            self.a.push_label(l).op(op::JUMP);
            self.a.place(ret);
            // unknown depth; keep going with a conservative estimate
            self.a.depth = 1 + nargs;
            let nxt = (b + 1).min(nblocks - 1);
            self.fix_depth(entry[nxt]);
        } else if r < 88 {
            // Computed jump between two labels.
            let (t1, t2) = (fwd(self), fwd(self));
            self.fix_depth(entry[t1]);
            match self.r.below(3) {
                0 => {
                    // l2 + (l1 - l2) * (cond & 1)
                    self.a.push_label(labels[t2]);
                    self.a.push_label(labels[t2]);
                    self.a.push_label(labels[t1]);
                    self.a.op(op::SUB);
                    self.cond();
                    self.a.op(op::ISZERO).op(op::MUL).op(op::ADD).op(op::JUMP);
                }
                1 => {
                    // through memory
                    self.a.push_label(labels[t1]);
                    self.c(U256::from(64));
                    self.a.op(op::MSTORE);
                    self.cond();
                    let skip = self.a.label();
                    self.a.push_label(skip).op(op::JUMPI);
                    self.a.push_label(labels[t2]);
                    self.c(U256::from(64));
                    self.a.op(op::MSTORE);
                    self.a.place(skip);
                    self.c(U256::from(64));
                    self.a.op(op::MLOAD).op(op::JUMP);
                }
                _ => {
                    // phi through the stack
                    let branch = self.r.chance(40);
                    if branch {
                        self.cond();
                    }
                    self.a.push_label(labels[t1]);
                    self.cond();
                    let skip = self.a.label();
                    self.a.push_label(skip).op(op::JUMPI);
                    self.a.op(op::POP);
                    self.a.push_label(labels[t2]);
                    self.a.place(skip);
                    if branch {
                        self.a.op(op::JUMPI);
                        self.a.depth = entry[t1];
                        let nxt = (b + 1).min(nblocks - 1);
                        self.fix_depth(entry[nxt]);
                    } else {
                        self.a.op(op::JUMP);
                    }
                }
            }
        } else if r < 92 {
            // Loop back with a counter in memory.
            let t = self.r.below(b + 1);
            self.fix_depth(entry[t]);
            let lim = self.r.range(1, 5) as u64;
            self.c(U256::from(0x60));
            self.a.op(op::MLOAD).pushu(1).op(op::ADD).op(op::DUP1);
            self.c(U256::from(0x60));
            self.a.op(op::MSTORE);
            self.a.pushu(lim).op(op::GT);
            self.a.push_label(labels[t]).op(op::JUMPI);
            let nxt = (b + 1).min(nblocks - 1);
            self.a.depth = entry[t];
            self.fix_depth(entry[nxt]);
        } else if r < 96 {
            // Probably invalid jump.
            match self.r.below(5) {
                0 => {
                    let v = self.r.word();
                    self.val(v);
                }
                1 => {
                    let v = U256::from(self.r.below(self.a.code.len() + 40));
                    self.val(v);
                }
                2 => {
                    // label + 1
                    let t = fwd(self);
                    self.a.push_label(labels[t]).pushu(1).op(op::ADD);
                }
                3 => {
                    // label + 2^k
                    let t = fwd(self);
                    let k = self.r.range(16, 255);
                    self.a.push_label(labels[t]);
                    self.c(U256::from(1) << k);
                    self.a.op(op::ADD);
                }
                _ => {
                    // inside push data
                    let here = self.a.code.len() as u64;
                    self.a.op(op::PUSH3).raw(&[0x5b, 0x5b, 0x5b]);
                    self.a.op(op::POP).pushu(here + 2);
                }
            }
            if self.r.chance(40) {
                self.cond();
                self.a.op(op::SWAP1).op(op::JUMPI);
            } else {
                self.a.op(op::JUMP);
            }
        } // else fall through
    }
}

/// Deep-stack programs: around the 1024 limit and around underflow.
pub fn deep(r: &mut Rng, spec: SpecId) -> Vec<u8> {
    let mut a = Asm::new();
    let n = match r.below(6) {
        0 => r.below(20),
        1 => 1024,
        2 => 1023,
        3 => 1025,
        4 => r.range(1000, 1040),
        _ => r.range(1, 1030),
    };
    let style = r.below(3);
    let mut d = 0usize;
    match style {
        0 => {
            for i in 0..n {
                if i > 0 && r.chance(30) {
                    a.op(op::DUP1 + r.below(i.min(16)) as u8);
                } else {
                    a.pushu(r.below(200) as u64);
                }
                d += 1;
            }
        }
        1 => {
            // push in a loop: counter via memory
            let l = a.label();
            let chunk = r.range(1, 40);
            a.place(l);
            for _ in 0..chunk {
                a.op(op::CALLVALUE);
            }
            a.pushu(0).op(op::MLOAD).pushu(1).op(op::ADD).op(op::DUP1).pushu(0).op(op::MSTORE);
            a.pushu((n / chunk) as u64).op(op::GT);
            a.push_label(l).op(op::JUMPI);
            d = (n / chunk) * chunk;
        }
        _ => {
            for _ in 0..n {
                a.op(if spec.is_enabled_in(SpecId::SHANGHAI) { op::PUSH0 } else { op::CALLER });
                d += 1;
            }
            let l = a.label();
            a.push_label(l).op(op::JUMP);
            a.place(l);
        }
    }
    // Poke at the edge.
    for _ in 0..r.range(1, 12) {
        match r.below(10) {
            0 => {
                a.op(op::POP);
            }
            1 => {
                a.op(op::DUP1 + r.below(16) as u8);
            }
            2 => {
                a.op(op::SWAP1 + r.below(16) as u8);
            }
            3 => {
                a.op(op::ADD);
            }
            4 => {
                a.op(op::CALLER);
            }
            5 => {
                a.pushu(1);
            }
            6 => {
                let l = a.label();
                a.push_label(l).op(op::JUMP);
                a.place(l);
            }
            7 => {
                for _ in 0..r.below(d.max(1) + 3).min(1100) {
                    a.op(op::POP);
                }
            }
            8 if spec.is_enabled_in(SpecId::AMSTERDAM) => {
                a.op(*r.pick(&[op::DUPN, op::SWAPN, op::EXCHANGE])).op(r.u64() as u8);
            }
            _ => {
                a.op(op::MSTORE8 - 2); // MLOAD
            }
        }
    }
    a.finish()
}

/// Uniformly random bytes, biased so that some of it executes.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(8),
        1 => r.below(40),
        _ => r.below(220),
    };
    let mut v = r.bytes(n);
    if r.chance(50) {
        for b in v.iter_mut() {
            if r.chance(60) {
                *b = *r.pick(&[
                    op::PUSH1, op::PUSH1, op::JUMPDEST, op::JUMP, op::JUMPI, op::DUP1, op::ADD, op::MSTORE,
                    op::MLOAD, op::SSTORE, op::SLOAD, op::CALLDATALOAD, op::POP, op::SWAP1, op::PUSH0,
                    op::PUSH2, op::RETURN, op::STOP, op::GAS, op::PC,
                ]);
            }
        }
    }
    v
}

/// Mutates an existing program.
pub fn mutate(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.range(1, 4) {
        if v.is_empty() {
            v.push(r.u64() as u8);
        }
        let i = r.below(v.len());
        match r.below(6) {
            0 => v[i] = r.u64() as u8,
            1 => {
                v.remove(i);
            }
            2 => v.insert(i, r.u64() as u8),
            3 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            4 => v.truncate(i),
            _ => {
                let k = r.range(1, 30).min(v.len() - i);
                let seg = v[i..i + k].to_vec();
                let at = r.below(v.len());
                for (o, b) in seg.into_iter().enumerate() {
                    v.insert(at + o, b);
                }
            }
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Straight,
    Cfg,
    Deep,
    Noise,
    Mutant,
    Sol,
    Twins,
    /// Contracts from the real world (Solidity and Vyper output), see `real_calldata`.
    Real,
}

pub fn program(r: &mut Rng, spec: SpecId, world_seed: u64, mix: Mix, kind: Kind) -> Vec<u8> {
    match kind {
        Kind::Straight => {
            let n = r.range(1, 24);
            Gen::new(r, spec, world_seed, mix).straight(n)
        }
        Kind::Cfg => {
            let nb = r.range(2, 9);
            let body = r.range(1, 7);
            Gen::new(r, spec, world_seed, mix).cfg(nb, body)
        }
        Kind::Sol => {
            let effects = mix.storage + mix.call > 0;
            Sol::program(r, spec, effects)
        }
        Kind::Twins => twins(r),
        Kind::Real => real(r).code.clone(),
        Kind::Deep => deep(r, spec),
        Kind::Noise => noise(r),
        Kind::Mutant => {
            let nb = r.range(2, 7);
            let p = if r.chance(40) {
                Sol::program(r, spec, true)
            } else {
                Gen::new(r, spec, world_seed, mix).cfg(nb, 5)
            };
            mutate(r, p)
        }
    }
}

/// A value related to `x` in a way optimizers like to special-case.
pub fn related(r: &mut Rng, x: U256) -> U256 {
    let one = U256::from(1);
    match r.below(14) {
        0 | 1 => x,
        2 => !x,
        3 => x.wrapping_neg(),
        4 => x.wrapping_add(one),
        5 => x.wrapping_sub(one),
        6 => one << r.below(256),
        7 => (one << r.below(257)).wrapping_sub(one),
        8 => U256::from(r.below(34)),
        9 => U256::from(248 + r.below(12)),
        10 => U256::ZERO,
        11 => U256::MAX,
        _ => r.word(),
    }
}

/// Expressions of pure operations over every mixture of constant and run-time operands, each
/// result stored in memory or deciding a branch; everything is returned.
pub fn arith_program(r: &mut Rng, spec: SpecId) -> Vec<u8> {
    let mut g = Gen::new(r, spec, 0, MIX_ALL);
    let n = g.r.range(1, 14);
    let mut slot = 0u64;
    let run_time = g.r.below(3);
    for _ in 0..n {
        let terms = g.r.range(1, 4);
        let mut x = g.r.word();
        g.arith_operand(x, run_time);
        for _ in 0..terms {
            let k = match g.r.below(10) {
                0 => 0,
                1 | 2 => 1,
                3 => 3,
                _ => 2,
            };
            match k {
                0 => {
                    // The same value twice.
                    let o = *g.r.pick(BIN);
                    if g.avail(o) {
                        g.a.op(op::DUP1).op(o);
                    }
                }
                1 => {
                    let o = *g.r.pick(UN);
                    if g.avail(o) {
                        g.a.op(o);
                    }
                }
                2 => {
                    let o = *g.r.pick(BIN);
                    if !g.avail(o) {
                        continue;
                    }
                    let y = related(g.r, x);
                    // EXP with a huge exponent is only expensive, not interesting.
                    g.arith_operand(y, run_time);
                    if g.r.chance(40) {
                        g.a.op(op::SWAP1);
                    }
                    g.a.op(o);
                    x = y;
                }
                _ => {
                    let o = *g.r.pick(TER);
                    let y = related(g.r, x);
                    g.arith_operand(y, run_time);
                    let z = related(g.r, y);
                    g.arith_operand(z, run_time);
                    if g.r.chance(50) {
                        g.a.op(op::SWAP2);
                    }
                    g.a.op(o);
                }
            }
        }
        if g.r.chance(20) {
            // Branch on it, and remember which way it went.
            let l = g.a.label();
            let e = g.a.label();
            g.a.op(op::DUP1);
            if g.r.chance(40) {
                g.a.op(op::ISZERO);
            }
            g.a.push_label(l).op(op::JUMPI);
            g.a.pushu(7).pushu(slot * 32).op(op::MSTORE);
            g.a.push_label(e).op(op::JUMP);
            g.a.place(l);
            g.a.pushu(9).pushu(slot * 32).op(op::MSTORE);
            g.a.place(e);
            slot += 1;
        }
        g.a.pushu(slot * 32).op(op::MSTORE);
        slot += 1;
    }
    g.a.pushu(slot * 32).pushu(0).op(op::RETURN);
    g.a.finish()
}

impl Gen<'_> {
    fn arith_operand(&mut self, v: U256, run_time: usize) {
        let dynamic = match run_time {
            0 => self.r.chance(50),
            1 => self.r.chance(10),
            _ => self.r.chance(90),
        };
        if dynamic {
            match self.r.below(4) {
                // The constant itself, opaquely.
                0 => {
                    self.a.push(v).pushu(0xfff0).op(op::CALLDATALOAD).op(op::XOR);
                }
                _ => {
                    let i = self.r.below(8) as u64;
                    self.a.pushu(i * 32).op(op::CALLDATALOAD);
                }
            }
        } else {
            match self.r.below(8) {
                0 => {
                    let k = self.r.word();
                    self.a.push(v.wrapping_sub(k)).push(k).op(op::ADD);
                }
                1 => {
                    let n = 32 - v.leading_zeros() / 8;
                    let n = self.r.range(n.max(1), 32);
                    self.a.push_n(v, n);
                }
                _ => {
                    self.a.push(v);
                }
            }
        }
    }
}

/// Calldata of eight related words.
pub fn arith_calldata(r: &mut Rng) -> Vec<u8> {
    let mut x = r.word();
    let mut v = vec![];
    for _ in 0..8 {
        v.extend_from_slice(&x.to_be_bytes::<32>());
        x = related(r, x);
    }
    v
}

/// One opcode with plausible operands below it; what follows it observes that it ran.
pub fn single_op(r: &mut Rng, opcode: u8, constant: bool) -> Vec<u8> {
    let mut a = Asm::new();
    // DUPN and the like reach deep.
    let n = if (0xe6..=0xe8).contains(&opcode) { 240 } else { 20 };
    for i in 0..n {
        let v = match r.below(4) {
            0 => U256::from(r.below(3)),
            1 => U256::from(r.below(64)),
            2 if i < n - 7 => r.word(),
            _ => U256::from(r.below(200)),
        };
        if constant {
            a.push(v);
        } else {
            a.push(v).pushu(0xfff0).op(op::CALLDATALOAD).op(op::XOR);
        }
    }
    // A jump finds its destination at the end of the code.
    if matches!(opcode, op::JUMP | op::JUMPI) {
        let l = a.label();
        if r.chance(60) {
            a.push_label(l);
        }
        a.op(opcode).op(op::INVALID);
        a.place(l);
        a.op(op::PC).op(op::STOP);
        return a.finish();
    }
    a.op(opcode);
    match r.below(6) {
        0 => {}
        1 => {
            let n = r.below(34);
            let b = r.bytes(n);
            a.raw(&b);
        }
        _ => {
            a.op(op::GAS).op(op::MSIZE).op(op::PC).op(op::STOP);
        }
    }
    a.finish()
}

/// Structured programs in the style of a high-level compiler: a dispatcher, functions with return
/// addresses on the stack called from several places (with constant and run-time arguments),
/// nested calls, loops, early returns, shared and near-identical tails.
pub struct Sol<'r> {
    pub r: &'r mut Rng,
    spec: SpecId,
    a: Asm,
    /// Entry label and number of arguments of each function; each returns one word.
    funcs: Vec<(usize, usize)>,
    tails: Vec<usize>,
    budget: i32,
    effects: bool,
}

const SOL_BIN: &[u8] = &[
    op::ADD, op::ADD, op::SUB, op::MUL, op::AND, op::OR, op::XOR, op::LT, op::GT, op::EQ, op::DIV, op::MOD,
    op::SLT, op::SGT, op::BYTE, op::SDIV, op::SMOD, op::SIGNEXTEND,
];

impl Sol<'_> {
    fn have(&self, s: SpecId) -> bool {
        self.spec.is_enabled_in(s)
    }

    /// Pushes one word computed from constants, locals (`depth` words of this frame below) and
    /// the environment.
    fn expr(&mut self, frame: usize, fuel: usize, me: usize) {
        self.budget -= 1;
        let d = self.a.depth;
        if fuel == 0 || self.budget < 0 {
            match self.r.below(4) {
                0 | 1 if frame > 0 && d > 0 => {
                    // A local of this frame.
                    let k = self.r.range(1, frame.min(d).min(16));
                    self.a.op(op::DUP1 + k as u8 - 1);
                    self.a.depth += 1;
                }
                2 => {
                    let o = 32 * self.r.below(6) as u64;
                    self.a.pushu(o).op(op::CALLDATALOAD);
                }
                _ => {
                    let v = if self.r.chance(60) { U256::from(self.r.below(70)) } else { self.r.word() };
                    self.a.push(v);
                }
            }
            return;
        }
        match self.r.below(20) {
            0..=7 => {
                self.expr(frame, fuel - 1, me);
                self.expr(frame + 1, fuel - 1, me);
                let o = *self.r.pick(SOL_BIN);
                self.a.op(o);
                self.a.depth -= 1;
            }
            8 => {
                self.expr(frame, fuel - 1, me);
                let o = *self.r.pick(&[op::ISZERO, op::NOT]);
                self.a.op(o);
            }
            9 if self.have(SpecId::PETERSBURG) => {
                self.expr(frame, fuel - 1, me);
                self.expr(frame + 1, 0, me);
                let o = *self.r.pick(&[op::SHL, op::SHR, op::SAR]);
                self.a.op(o);
                self.a.depth -= 1;
            }
            10 | 11 => {
                // A bounded memory read.
                self.expr(frame, fuel - 1, me);
                self.a.pushu(0xe0).op(op::AND).op(op::MLOAD);
                self.a.depth -= 1;
            }
            12 if self.effects => {
                self.expr(frame, fuel - 1, me);
                self.a.pushu(3).op(op::AND).op(op::SLOAD);
                self.a.depth -= 1;
            }
            13 => {
                let o = *self.r.pick(&[op::GAS, op::MSIZE, op::PC, op::CALLDATASIZE, op::CODESIZE, op::ADDRESS, op::CALLVALUE]);
                self.a.op(o);
                self.a.depth += 1;
            }
            14 if self.effects => {
                self.a.pushu(64).pushu(0).op(op::KECCAK256);
                self.a.depth -= 1;
            }
            15 if self.effects && self.r.chance(30) => {
                // A nested call; the result word is its success flag.
                for v in [32u64, 128, 32, 96, 0] {
                    self.a.pushu(v);
                }
                self.expr(frame + 5, 0, me);
                self.a.pushu(3000).op(op::CALL);
                self.a.depth -= 6;
            }
            // A function call.
            _ if !self.funcs.is_empty() && self.budget > 0 => {
                // Mostly acyclic; sometimes recursive (bounded by gas).
                let lo = if self.r.chance(4) { 0 } else { me };
                if lo >= self.funcs.len() {
                    return self.expr(frame, 0, me);
                }
                let f = self.r.range(lo, self.funcs.len() - 1);
                let (l, n) = self.funcs[f];
                let ret = self.a.label();
                self.a.push_label(ret);
                for i in 0..n {
                    self.expr(frame + 1 + i, fuel - 1, me);
                }
                self.a.push_label(l).op(op::JUMP);
                self.a.place(ret);
                self.a.depth = d + 1;
            }
            _ => self.expr(frame, 0, me),
        }
        debug_assert_eq!(self.a.depth, d + 1);
    }

    fn stmt(&mut self, frame: usize, nest: usize, me: usize) {
        self.budget -= 1;
        let d = self.a.depth;
        match self.r.below(12) {
            0..=2 => {
                // Memory write.
                self.expr(frame, 2, me);
                self.expr(frame + 1, 1, me);
                self.a.pushu(0xff).op(op::AND);
                self.a.depth -= 1;
                let o = if self.r.chance(25) { op::MSTORE8 } else { op::MSTORE };
                self.a.op(o);
                self.a.depth -= 2;
            }
            3 => {
                self.expr(frame, 2, me);
                let s = 32 * self.r.below(8) as u64;
                self.a.pushu(s).op(op::MSTORE);
                self.a.depth -= 2;
            }
            4 if frame > 0 => {
                // Assign a local.
                self.expr(frame, 2, me);
                let k = self.r.range(1, frame.min(16));
                self.a.op(op::SWAP1 + k as u8 - 1).op(op::POP);
                self.a.depth -= 1;
            }
            5 if self.effects => {
                self.expr(frame, 1, me);
                self.expr(frame + 1, 0, me);
                self.a.pushu(3).op(op::AND).op(op::SSTORE);
                self.a.depth -= 3;
            }
            6 | 7 if nest > 0 && self.budget > 0 => {
                // if / if-else
                let (e, f) = (self.a.label(), self.a.label());
                self.expr(frame, 2, me);
                self.a.push_label(e).op(op::JUMPI);
                self.a.depth = d;
                self.stmt(frame, nest - 1, me);
                let both = self.r.chance(50);
                if both {
                    self.a.push_label(f).op(op::JUMP);
                }
                self.a.place(e);
                self.a.depth = d;
                if both {
                    self.stmt(frame, nest - 1, me);
                    self.a.place(f);
                }
                self.a.depth = d;
            }
            8 if nest > 0 && self.budget > 0 => {
                // for i in 0..n, the counter on the stack
                let (top, end) = (self.a.label(), self.a.label());
                let n = self.r.range(1, 4) as u64;
                self.a.pushu(0);
                self.a.place(top);
                if self.r.chance(50) {
                    self.a.pushu(n).op(op::DUP2).op(op::LT).op(op::ISZERO);
                } else {
                    self.a.op(op::DUP1).pushu(n).op(op::EQ);
                }
                self.a.push_label(end).op(op::JUMPI);
                self.a.depth = d + 1;
                self.stmt(frame + 1, nest - 1, me);
                self.a.pushu(1).op(op::ADD);
                self.a.push_label(top).op(op::JUMP);
                self.a.place(end);
                self.a.op(op::POP);
                self.a.depth = d;
            }
            9 if !self.tails.is_empty() => {
                // require(cond) with a shared tail, or an inline near-identical one
                let ok = self.a.label();
                self.expr(frame, 1, me);
                if self.r.chance(40) {
                    let t = *self.r.pick(&self.tails.clone());
                    self.a.push_label(t).op(op::JUMPI);
                    self.a.depth = d;
                } else {
                    self.a.push_label(ok).op(op::JUMPI);
                    self.a.depth = d;
                    self.tail();
                    self.a.place(ok);
                    self.a.depth = d;
                }
            }
            _ => {
                self.expr(frame, 2, me);
                self.a.op(op::POP);
                self.a.depth -= 1;
            }
        }
        debug_assert_eq!(self.a.depth, d);
    }

    /// A diverging block, one of few shapes: many of these are identical, many almost so.
    fn tail(&mut self) {
        let w = self.r.range(1, 4);
        let v = match self.r.below(6) {
            0 => 0u64,
            1 => 0x80,
            2 => 0x0100,
            3 => 0x800001,
            4 => 0x8080,
            _ => self.r.below(4) as u64 * 32,
        };
        let v = v & ((1u64 << (8 * w)) - 1) & 0x7fff_ffff;
        match self.r.below(9) {
            0 => {
                self.a.push_n(U256::from(v), w).op(op::DUP1).op(op::REVERT);
            }
            1 => {
                self.a.push_n(U256::from(v), w).op(op::REVERT);
            }
            2 => {
                self.a.pushu(0).op(op::DUP1).op(op::REVERT);
            }
            3 => {
                self.a.push_n(U256::from(v), w).pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(op::REVERT);
            }
            4 => {
                self.a.push_n(U256::from(v), w).pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(op::RETURN);
            }
            5 => {
                // Immediate bytes of one are opcodes of the other.
                let o = [self.op_byte(), self.op_byte(), self.op_byte()];
                if self.r.chance(50) {
                    self.a.push_n(U256::ZERO, w).raw(&o).pushu(32).pushu(0).op(op::RETURN);
                } else {
                    let mut b = vec![0x80u8];
                    b.extend_from_slice(&o);
                    b.reverse();
                    b[0] &= 0x7f;
                    self.a.op(op::PUSH0 + w as u8).raw(&b[4 - w..]).pushu(32).pushu(0).op(op::RETURN);
                }
            }
            6 => {
                self.a.op(op::STOP);
            }
            7 => {
                self.a.op(op::INVALID);
            }
            _ => {
                self.a.pushu(v & 0xff).pushu(0).op(op::RETURN);
            }
        }
    }

    fn op_byte(&mut self) -> u8 {
        *self.r.pick(&[op::DUP1, op::DUP1, op::DUP2, op::SWAP1, op::POP, op::CALLER, op::ISZERO])
    }

    /// `[ret, args..]` on entry, `[result]` on return.
    fn function(&mut self, i: usize) {
        let (l, n) = self.funcs[i];
        self.a.place(l);
        self.a.depth = n + 1;
        let locals = self.r.below(3);
        for k in 0..locals {
            self.expr(n + k, 1, i + 1);
        }
        let frame = n + locals;
        for _ in 0..self.r.below(4) {
            self.stmt(frame, 2, i + 1);
        }
        if self.r.chance(25) {
            // Early return.
            let go = self.a.label();
            let d = self.a.depth;
            self.expr(frame, 1, i + 1);
            self.a.push_label(go).op(op::JUMPI);
            self.a.depth = d;
            self.ret(frame, i);
            self.a.place(go);
            self.a.depth = d;
        }
        self.ret(frame, i);
    }

    fn ret(&mut self, frame: usize, i: usize) {
        self.expr(frame, 2, i + 1);
        // [ret, frame.., result]
        if frame > 0 {
            self.a.op(op::SWAP1 + frame as u8 - 1);
            for _ in 0..frame {
                self.a.op(op::POP);
            }
        }
        self.a.op(op::SWAP1).op(op::JUMP);
        self.a.depth -= frame + 2;
    }

    pub fn program(r: &mut Rng, spec: SpecId, effects: bool) -> Vec<u8> {
        let mut s = Sol { r, spec, a: Asm::new(), funcs: vec![], tails: vec![], budget: 0, effects };
        for _ in 0..s.r.below(5) {
            let l = s.a.label();
            let n = s.r.below(4);
            s.funcs.push((l, n));
        }
        for _ in 0..s.r.below(3) {
            let l = s.a.label();
            s.tails.push(l);
        }
        let cases: Vec<usize> = (0..s.r.range(1, 4)).map(|_| s.a.label()).collect();
        s.budget = 12;
        // Dispatcher: the selector stays on the stack or not.
        let keep = s.r.chance(50);
        s.a.pushu(0).op(op::CALLDATALOAD).pushu(7).op(op::AND);
        s.a.depth = 1;
        for (k, c) in cases.iter().enumerate() {
            s.a.op(op::DUP1).pushu(k as u64).op(op::EQ).push_label(*c).op(op::JUMPI);
        }
        s.a.depth = 1;
        if s.r.chance(50) {
            s.tail();
        }
        let end = s.a.label();
        for c in cases {
            s.a.place(c);
            s.a.depth = 1;
            if !keep {
                s.a.op(op::POP);
                s.a.depth = 0;
            }
            let frame = s.a.depth;
            s.budget = 40;
            for _ in 0..s.r.range(1, 4) {
                s.stmt(frame, 2, 0);
            }
            s.expr(frame, 3, 0);
            match s.r.below(3) {
                0 => {
                    s.a.push_label(end).op(op::JUMP);
                }
                _ => {
                    s.a.pushu(0x100).op(op::MSTORE).pushu(0x120).pushu(0).op(op::RETURN);
                }
            }
        }
        s.a.place(end);
        s.a.pushu(0x100).op(op::MSTORE).pushu(0x120).pushu(0).op(op::RETURN);
        for t in s.tails.clone() {
            s.a.place(t);
            s.tail();
        }
        for i in 0..s.funcs.len() {
            s.budget = 30;
            s.function(i);
        }
        s.a.finish()
    }
}

/// Several diverging or joining blocks, reached through a dispatcher, that are equal or almost
/// equal: other push width, other value, immediates that spell other instructions, other order,
/// other end. What each leaves behind is returned.
pub fn twins(r: &mut Rng) -> Vec<u8> {
    let mut a = Asm::new();
    for i in 0..4u64 {
        if r.chance(50) {
            a.pushu(0x1111 * (i + 1));
        } else {
            a.pushu(32 * i + 32).op(op::CALLDATALOAD);
        }
    }
    const SAFE: &[u8] = &[op::DUP1, op::DUP1, op::DUP2, op::DUP3, op::SWAP1, op::SWAP2, op::POP, op::ADD, op::ISZERO, op::CALLER, op::NOT];
    let end = a.label();
    let others: Vec<usize> = (0..2).map(|_| a.label()).collect();
    // One underlying byte string for the whole program.
    let s: Vec<u8> = (0..8).map(|_| if r.chance(20) { 0x80 } else { *r.pick(SAFE) }).collect();
    let w = r.range(1, 5);
    let mut blocks: Vec<Vec<u8>> = vec![];
    let le = r.chance(60);
    for _ in 0..r.range(2, 4) {
        let n = r.below(w + 1);
        let mut v = vec![0u8; w];
        for (k, b) in s[..n].iter().enumerate() {
            if le {
                // Least significant byte first.
                v[n - 1 - k] = *b;
            } else {
                v[w - n + k] = *b;
            }
        }
        if le {
            v.rotate_left(n % w);
        }
        if le && r.chance(50) {
            v[0] &= 0x7f;
        }
        let mut b = vec![op::PUSH0 + w as u8];
        b.extend_from_slice(&v);
        let skip = if r.chance(30) { 1 } else { 0 };
        let to = (n + r.range(1, 3)).min(s.len());
        b.extend(s[(n + skip).min(to)..to].iter());
        blocks.push(b);
    }
    let n = r.range(2, 6);
    for k in 0..n {
        let next = a.label();
        a.pushu(0).op(op::CALLDATALOAD).pushu(7).op(op::AND).pushu(k as u64);
        a.op(op::EQ).op(op::ISZERO).push_label(next).op(op::JUMPI);
        let mut b = r.pick(&blocks).clone();
        match r.below(8) {
            0 => {
                // Reorder.
                b.push(*r.pick(SAFE));
            }
            1 => {
                let i = r.range(1, b.len() - 1);
                b[i] ^= 1 << r.below(8);
            }
            _ => {}
        }
        a.raw(&b);
        match r.below(6) {
            0 => {
                a.push_label(end).op(op::JUMP);
            }
            1 => {
                a.push_label(*r.pick(&others)).op(op::JUMP);
            }
            2 => {
                a.op(op::DUP1).op(op::REVERT);
            }
            _ => {
                a.pushu(0).op(op::MSTORE).pushu(32).op(op::MSTORE).pushu(64).op(op::MSTORE);
                a.pushu(96).pushu(0).op(if r.chance(50) { op::RETURN } else { op::REVERT });
            }
        }
        a.place(next);
    }
    a.op(op::STOP);
    for (i, l) in others.iter().enumerate() {
        a.place(*l);
        a.pushu(i as u64 * 0 + 5).op(op::ADD);
        a.push_label(end).op(op::JUMP);
    }
    a.place(end);
    a.pushu(0).op(op::MSTORE).pushu(32).op(op::MSTORE).pushu(64).pushu(0).op(op::RETURN);
    a.finish()
}

pub struct RealCode {
    pub code: Vec<u8>,
    pub calldata: Vec<Vec<u8>>,
    /// The constants behind PUSH4: mostly function selectors.
    pub selectors: Vec<[u8; 4]>,
}

pub fn reals() -> &'static [RealCode] {
    static R: std::sync::OnceLock<Vec<RealCode>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let v: serde_json::Value = serde_json::from_str(include_str!("../data/real.json")).unwrap();
        let hex = |x: &serde_json::Value| revm_primitives::hex::decode(x.as_str().unwrap()).unwrap();
        v.as_array()
            .unwrap()
            .iter()
            .map(|o| {
                let code = hex(&o["code"]);
                let mut selectors = vec![];
                let mut i = 0;
                while i < code.len() {
                    let n = if (0x60..=0x7f).contains(&code[i]) { (code[i] - 0x5f) as usize } else { 0 };
                    if n == 4 && i + 5 <= code.len() {
                        selectors.push(code[i + 1..i + 5].try_into().unwrap());
                    }
                    i += n + 1;
                }
                RealCode { code, calldata: o["calldata"].as_array().unwrap().iter().map(hex).collect(), selectors }
            })
            .collect()
    })
}

/// Smaller contracts more often: they are cheaper to compile.
fn real(r: &mut Rng) -> &'static RealCode {
    let v = reals();
    loop {
        let c = &v[r.below(v.len())];
        if r.below(c.code.len().max(500)) < 500 {
            return c;
        }
    }
}

/// Calldata for a contract of `reals` (empty for other code).
pub fn real_calldata(r: &mut Rng, code: &[u8]) -> Vec<u8> {
    let Some(c) = reals().iter().find(|c| c.code == code) else { return vec![] };
    let mut d = if !c.calldata.is_empty() && (c.selectors.is_empty() || r.chance(25)) {
        r.pick(&c.calldata).clone()
    } else if !c.selectors.is_empty() && r.chance(95) {
        let mut d = r.pick(&c.selectors).to_vec();
        for _ in 0..r.below(7) {
            let w = match r.below(6) {
                0 => U256::from(r.below(4)),
                1 => U256::from(32 * r.below(8)),
                2 => U256::from(r.u64()) >> 20,
                3 => r.u256() >> 96,
                4 => U256::from(10u64).pow(U256::from(r.below(30))),
                _ => r.word(),
            };
            d.extend(w.to_be_bytes::<32>());
        }
        d
    } else {
        let n = r.below(100);
        r.bytes(n)
    };
    if r.chance(10) && !d.is_empty() {
        let i = r.below(d.len());
        d[i] ^= 1 << r.below(8);
    }
    d
}
