//! Differential checks of compiled code against the reference interpreter.
use crate::{
    engine::{Cfg, Engine},
    env::{Event, World},
    exec::{self, CmpOpts, Mode, Trace},
    fw::{Check, Stats, Violation},
    gen_::{self, Kind, MIX_ALL, Mix},
    rng::{Rng, hash_bytes},
};
use revm_bytecode::Bytecode;
use revm_interpreter::InstructionResult;
use revm_primitives::{Bytes, U256, hardfork::SpecId, hex};
use revmc::EvmCompilerFn;
use serde_json::{Value, json};

/// Which aspect a differential check drives.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Focus {
    General,
    Gas,
    Host,
    Suspend,
    Control,
    Bounds,
    Memory,
    Schedule,
    Arith,
}

pub struct Diff {
    pub focus: Focus,
    pub eng: Engine,
    pub cover: [u64; 256],
    pub regressions: Vec<Value>,
    since_release: u32,
}

pub struct Case {
    pub code: Vec<u8>,
    pub spec: SpecId,
    pub cfg: Cfg,
    pub world: World,
    pub gas: u64,
    pub kind: String,
}

impl Case {
    pub fn describe(&self, gas: u64, mode: Mode) -> Value {
        json!({
            "code": hex::encode(&self.code),
            "spec": format!("{:?}", self.spec),
            "config": format!("{:?}", self.cfg),
            "gas_limit": gas,
            "mode": format!("{mode:?}"),
            "kind": self.kind,
            "calldata": hex::encode(&self.world.calldata),
            "value": format!("{}", self.world.value),
            "static": self.world.is_static,
            "world_seed": self.world.seed,
            "eip8037": self.world.eip8037,
            "custom_gas": self.world.custom_gas,
            "fault_pct": self.world.fault_pct,
        })
    }
}

const GASES: &[u64] = &[100_000, 100_000, 300_000, 1_000_000];

impl Diff {
    pub fn new(focus: Focus) -> Self {
        let p = crate::fw::verif_dir().join("regressions.json");
        let regressions = std::fs::read(p)
            .ok()
            .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
            .and_then(|v| v.as_array().cloned())
            .unwrap_or_default();
        Self { focus, eng: Engine::new(), cover: [0; 256], regressions, since_release: 0 }
    }

    fn mix(&self, r: &mut Rng) -> Mix {
        let z = Mix { arith: 6, stack: 6, mem: 2, copy: 1, storage: 0, env: 2, acct: 0, log: 0, call: 0, create: 0, gas: 1, keccak: 0, raw: 0 };
        match self.focus {
            Focus::General => match r.below(6) {
                0 => Mix { arith: 60, ..MIX_ALL },
                1 => Mix { mem: 40, copy: 20, keccak: 10, ..MIX_ALL },
                2 => Mix { stack: 40, ..MIX_ALL },
                3 => Mix { env: 25, acct: 12, storage: 20, ..MIX_ALL },
                _ => MIX_ALL,
            },
            Focus::Gas => match r.below(5) {
                0 => Mix { mem: 20, copy: 12, keccak: 8, gas: 8, log: 6, ..z },
                1 => Mix { arith: 40, gas: 4, ..z },
                2 => Mix { storage: 20, gas: 6, acct: 8, ..z },
                3 => Mix { call: 8, create: 3, gas: 6, mem: 8, ..z },
                _ => MIX_ALL,
            },
            Focus::Host => Mix {
                storage: 22, env: 12, acct: 12, log: 8, copy: 8, call: 3, create: 1, mem: 6, gas: 2, ..z
            },
            Focus::Suspend => Mix { call: 16, create: 5, mem: 8, copy: 6, storage: 4, stack: 12, gas: 3, log: 2, ..z },
            Focus::Control => match r.below(3) {
                0 => Mix { storage: 4, ..z },
                1 => Mix { arith: 10, stack: 16, mem: 4, call: 2, ..z },
                _ => z,
            },
            Focus::Bounds => Mix { stack: 30, arith: 10, mem: 3, call: 1, ..z },
            Focus::Memory => Mix { mem: 40, copy: 22, keccak: 10, log: 8, call: 4, create: 2, gas: 2, ..z },
            Focus::Schedule => Mix { raw: 6, ..MIX_ALL },
            Focus::Arith => z,
        }
    }

    fn kind(&self, r: &mut Rng) -> Kind {
        use Kind::*;
        let w: [(Kind, u32); 8] = match self.focus {
            Focus::Control => [(Straight, 2), (Cfg, 70), (Deep, 2), (Noise, 8), (Mutant, 18), (Sol, 45), (Twins, 8), (Real, 2)],
            Focus::Bounds => [(Straight, 15), (Cfg, 25), (Deep, 40), (Noise, 10), (Mutant, 10), (Sol, 15), (Twins, 2), (Real, 1)],
            Focus::Gas => [(Straight, 40), (Cfg, 45), (Deep, 2), (Noise, 3), (Mutant, 10), (Sol, 25), (Twins, 3), (Real, 3)],
            Focus::Memory | Focus::Host | Focus::Suspend => {
                [(Straight, 40), (Cfg, 50), (Deep, 0), (Noise, 2), (Mutant, 8), (Sol, 20), (Twins, 1), (Real, 2)]
            }
            Focus::Schedule => [(Straight, 60), (Cfg, 20), (Deep, 0), (Noise, 10), (Mutant, 10), (Sol, 5), (Twins, 2), (Real, 1)],
            Focus::General | Focus::Arith => [(Straight, 30), (Cfg, 45), (Deep, 4), (Noise, 8), (Mutant, 13), (Sol, 35), (Twins, 8), (Real, 3)],
        };
        let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
        w[r.weighted(&ws)].0
    }

    pub fn make(&self, seed: u64) -> Case {
        let mut r = Rng::new(seed);
        let mut spec = gen_::spec(&mut r);
        if self.focus == Focus::Arith && r.chance(70) {
            spec = *r.pick(&[SpecId::OSAKA, SpecId::AMSTERDAM]);
        }
        let mut world = World::random(&mut r, spec);
        let mix = self.mix(&mut r);
        let kind = self.kind(&mut r);
        let code = if self.focus == Focus::Arith {
            world.calldata = gen_::arith_calldata(&mut r);
            gen_::arith_program(&mut r, spec)
        } else {
            gen_::program(&mut r, spec, world.seed, mix, kind)
        };
        if kind == Kind::Real {
            // Written for recent forks; on early ones they stop at the first new instruction.
            if r.chance(85) {
                spec = *r.pick(&[SpecId::CANCUN, SpecId::PRAGUE, SpecId::OSAKA, SpecId::AMSTERDAM]);
                world = World::random(&mut r, spec);
            }
            world.calldata = gen_::real_calldata(&mut r, &code);
            world.value = if r.chance(80) { U256::ZERO } else { world.value };
        }
        let cfg = Cfg::observing(&mut r);
        if spec == SpecId::AMSTERDAM && r.chance(50) {
            world.eip8037 = true;
            world.reservoir = *r.pick(&[0, 0, 50_000, 1_000_000, u32::MAX as u64]);
        }
        if matches!(self.focus, Focus::Host | Focus::Schedule) || r.chance(5) {
            if r.chance(15) {
                world.fault_pct = *r.pick(&[10, 30, 60]);
            }
            if r.chance(25) {
                world.is_static = true;
            }
        }
        if self.focus == Focus::Schedule && r.chance(60) || r.chance(4) {
            custom_gas(&mut r, &mut world);
        }
        let gas = *r.pick(GASES);
        Case { code, spec, cfg, world, gas, kind: format!("{kind:?}") }
    }

    /// The case of an index: the fork check first enumerates every opcode at every fork.
    pub fn make_at(&self, index: u64, seed: u64, st: &mut Stats) -> Case {
        let n = gen_::SPECS.len() as u64;
        let index = match index.checked_sub(self.regressions.len() as u64 * 6) {
            Some(i) => i,
            None => return self.regression(index, seed, st),
        };
        if self.focus != Focus::Schedule || index >= 256 * n * 2 {
            return self.make(seed);
        }
        let mut r = Rng::new(seed);
        let opcode = (index % 256) as u8;
        let spec = gen_::SPECS[(index / 256 % n) as usize];
        let world = World::random(&mut r, spec);
        let constant = index / 256 / n == 0;
        let code = gen_::single_op(&mut r, opcode, constant);
        let mut cfg = Cfg::observing(&mut r);
        cfg.inspect_stack = true;
        st.count("systematic_opcode_fork_pairs", 1);
        Case { code, spec, cfg, world, gas: 1_000_000, kind: "Single".into() }
    }

    /// Programs that once failed, with varied configurations and gas.
    fn regression(&self, index: u64, seed: u64, st: &mut Stats) -> Case {
        let mut r = Rng::new(seed);
        let v = &self.regressions[(index / 6) as usize];
        let name = v["spec"].as_str().unwrap();
        let spec = *gen_::SPECS.iter().find(|s| format!("{s:?}") == name).expect("spec");
        let mut world = World::random(&mut r, spec);
        world.is_static = false;
        if let Some(d) = v["calldata"].as_str() {
            world.calldata = hex::decode(d).unwrap();
        }
        let mut cfg = Cfg::observing(&mut r);
        if index % 6 < 2 {
            cfg = Cfg::default_release();
            cfg.single_error = index % 6 == 0;
        }
        if index % 6 == 2 {
            cfg.inspect_stack = true;
        }
        st.count("regression_programs", 1);
        let code = hex::decode(v["code"].as_str().unwrap()).unwrap();
        Case { code, spec, cfg, world, gas: v["gas"].as_u64().unwrap_or(1_000_000), kind: "Regression".into() }
    }

    fn record(&mut self, c: &Case, t: &Trace, st: &mut Stats) {
        st.count(format!("result:{:?}", t.result), 1);
        st.count(format!("kind:{}:{}", c.kind, if t.halted() { "error" } else { "ok" }), 1);
        st.count(format!("spec:{:?}", c.spec), 1);
        st.count("suspensions", t.segs.len() as u64 - 1);
        if t.cut {
            st.count("cut", 1);
        }
        for e in &t.events {
            let k = match e {
                Event::Sload(..) => "host:sload",
                Event::Sstore(..) => "host:sstore",
                Event::Tload(..) => "host:tload",
                Event::Tstore(..) => "host:tstore",
                Event::Log(..) => "host:log",
                Event::SelfDestruct(..) => "host:selfdestruct",
                Event::Account(..) => "host:account",
                Event::BlockHash(..) => "host:blockhash",
            };
            st.count(k, 1);
        }
        // Non-trivial: did something before ending (gas was spent) and is a new program/world/gas.
        if !t.halted() && t.segs.last().unwrap().gas.remaining < c.gas {
            let mut h = hash_bytes(c.world.seed, &c.code);
            h = hash_bytes(h, &c.world.calldata);
            st.nontrivial(h);
        }
    }

    /// Compares one execution. `exp` is the reference trace.
    fn check_run(
        &mut self,
        c: &Case,
        bc: &Bytecode,
        f: EvmCompilerFn,
        exp: &Trace,
        gas: u64,
        mode: Mode,
        st: &mut Stats,
    ) -> Result<(), Violation> {
        let before = crate::fence::seen();
        let got = exec::run_jit(&c.world, bc, gas, f, mode, &mut self.eng.gs);
        st.evals += 1;
        let after = crate::fence::seen();
        if after.0 > before.0 {
            st.count("fence:runs", 1);
            st.count("fence:blocks", (after.0 - before.0) as u64);
            st.count("fence:blocks moved", (after.1 - before.1) as u64);
        }
        let o = CmpOpts { final_stack: c.cfg.inspect_stack, reasons: !c.cfg.single_error };
        exec::compare(exp, &got, o).map_err(|e| {
            let mut d = c.describe(gas, mode);
            d["difference"] = json!(e);
            d["reference_result"] = json!(format!("{:?}", exp.result));
            d["compiled_result"] = json!(format!("{:?}", got.result));
            Violation::new(format!("compiled code differs from the interpreter: {e}"), d)
        })
    }

    pub fn run_full(&mut self, c: &Case, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        if self.since_release > 40 {
            self.eng.release();
            self.since_release = 0;
        }
        self.since_release += 1;
        let bc = Bytecode::new_raw_checked(Bytes::from(c.code.clone()))
            .ok()
            .filter(|b| !b.is_eip7702())
            .unwrap_or_else(|| Bytecode::new_legacy(Bytes::from(c.code.clone())));
        crate::fw::current(c.describe(c.gas, Mode::Wrapper));
        let gp = c.world.custom_gas.then_some(&c.world.gas_params);
        let f = self.eng.compile(&c.code, c.spec, &c.cfg, gp).map_err(|e| {
            Violation::new(format!("compilation failed: {e}"), c.describe(c.gas, Mode::Wrapper))
        })?;
        let mut cov = self.cover;
        let Some(exp) = reference(&c.world, &bc, c.gas, Some(&mut cov), st) else { return Ok(()) };
        self.cover = cov;
        self.record(c, &exp, st);
        st.sample(|| {
            let mut d = c.describe(c.gas, Mode::Wrapper);
            d["reference"] = json!(format!("{:?}", exp.result));
            d["exits"] = json!(exp.segs.len());
            d["gas_remaining"] = json!(exp.segs.last().unwrap().gas.remaining);
            d
        });
        let first = if r.chance(50) { Mode::Wrapper } else { Mode::Guarded };
        self.check_run(c, &bc, f, &exp, c.gas, first, st)?;
        if r.chance(30) {
            let other = if first == Mode::Wrapper { Mode::Guarded } else { Mode::Wrapper };
            self.check_run(c, &bc, f, &exp, c.gas, other, st)?;
        }

        // Same code, other worlds.
        let real = c.kind == "Real";
        let worlds = match self.focus {
            _ if real => 24,
            Focus::Arith => 12,
            Focus::Control | Focus::Host | Focus::Suspend => 4,
            _ => 2,
        };
        for _ in 0..worlds {
            let mut w2 = World::random(r, c.spec);
            if self.focus == Focus::Arith {
                w2.calldata = gen_::arith_calldata(r);
            }
            if real {
                w2.calldata = gen_::real_calldata(r, &c.code);
                w2.value = if r.chance(80) { U256::ZERO } else { w2.value };
            }
            w2.seed = if r.chance(70) { c.world.seed } else { w2.seed };
            w2.gas_params = c.world.gas_params.clone();
            w2.custom_gas = c.world.custom_gas;
            w2.eip8037 = c.world.eip8037;
            w2.reservoir = c.world.reservoir;
            w2.fault_pct = c.world.fault_pct;
            if r.chance(70) {
                w2.target = c.world.target;
            }
            let c2 = Case { code: c.code.clone(), spec: c.spec, cfg: c.cfg, world: w2, gas: c.gas, kind: c.kind.clone() };
            let Some(e2) = reference(&c2.world, &bc, c2.gas, None, st) else { continue };
            self.record(&c2, &e2, st);
            let m = if r.chance(50) { Mode::Wrapper } else { Mode::Guarded };
            self.check_run(&c2, &bc, f, &e2, c2.gas, m, st)?;
        }

        // Gas sweep around the exact requirement.
        let sweep = match self.focus {
            Focus::Gas => 24,
            Focus::Arith => 0,
            Focus::Schedule => 8,
            Focus::Memory => 6,
            _ => 3,
        };
        let spent = exp.spent(c.gas);
        let mut limits = vec![];
        if !exp.halted() {
            limits.extend([spent, spent.saturating_sub(1), spent + 1, spent + 2300, spent + 2301]);
        }
        for _ in 0..sweep {
            limits.push(match r.below(3) {
                0 => r.u64() % (spent + 1),
                1 => spent.saturating_sub(r.below(100) as u64),
                _ => spent + r.below(6000) as u64,
            });
        }
        if self.focus == Focus::Gas && !exp.halted() && spent < 200 {
            limits.extend(0..spent);
        }
        if !exp.halted() && !exp.cut && r.chance(30) && exp.segs.len() < 4 {
            limits.push(*r.pick(&[u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, u32::MAX as u64 + 7]));
        }
        // With gas to spare, nothing can have run out of it.
        if exp.halted() && !exec::oogish(exp.result) && !c.cfg.single_error && !exp.cut && r.chance(40) {
            limits.insert(0, exec::AMPLE_GAS + c.gas);
        }
        limits.truncate(if self.focus == Focus::Gas { 200 } else { 5 + sweep });
        for g in limits {
            let big = g > 10_000_000;
            // Amounts of gas used as memory offsets would ask for unreasonable memory.
            let same_path = exp.halted() && g > exec::AMPLE_GAS;
            if big && (loops(&c.code) && !same_path || c.code.contains(&0x5a)) {
                continue;
            }
            let Some(e) = reference(&c.world, &bc, g, None, st) else { continue };
            st.count(if e.halted() { "sweep:halt" } else { "sweep:ok" }, 1);
            let m = if r.chance(70) { Mode::Wrapper } else { Mode::Guarded };
            self.check_run(c, &bc, f, &e, g, m, st)?;
        }
        Ok(())
    }
}

/// The reference run; `None` when the reference itself could not (harness limits).
pub fn reference(
    w: &World,
    bc: &Bytecode,
    gas: u64,
    cov: Option<&mut [u64; 256]>,
    st: &mut Stats,
) -> Option<Trace> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        exec::run_interp(w, bc, gas, cov)
    }));
    if r.is_err() {
        st.count("reference_unusable", 1);
    }
    r.ok()
}

/// May the program loop (a backward jump could exist)?
pub fn loops(code: &[u8]) -> bool {
    code.iter().any(|b| matches!(b, 0x56 | 0x57))
}

pub fn custom_gas(r: &mut Rng, w: &mut World) {
    use revm_context_interface::cfg::gas_params::GasId;
    let ids = [
        GasId::exp_byte_gas(),
        GasId::extcodecopy_per_word(),
        GasId::copy_per_word(),
        GasId::logdata(),
        GasId::logtopic(),
        GasId::mcopy_per_word(),
        GasId::keccak256_per_word(),
        GasId::memory_linear_cost(),
        GasId::memory_quadratic_reduction(),
        GasId::initcode_per_word(),
        GasId::create(),
        GasId::transfer_value_cost(),
        GasId::cold_account_additional_cost(),
        GasId::new_account_cost(),
        GasId::warm_storage_read_cost(),
        GasId::sstore_static(),
        GasId::sstore_set_without_load_cost(),
        GasId::sstore_reset_without_cold_load_cost(),
        GasId::sstore_clearing_slot_refund(),
        GasId::selfdestruct_refund(),
        GasId::call_stipend(),
        GasId::cold_storage_additional_cost(),
        GasId::cold_storage_cost(),
        GasId::new_account_cost_for_selfdestruct(),
        GasId::sstore_set_refund(),
        GasId::sstore_reset_refund(),
    ];
    w.custom_gas = true;
    let n = r.range(1, ids.len());
    let mut v = vec![];
    for _ in 0..n {
        let id = *r.pick(&ids);
        let val = match r.below(4) {
            0 => 1,
            1 => r.below(20) as u64 + 1,
            2 => r.below(3000) as u64 + 1,
            _ => r.below(100) as u64 + 1,
        };
        v.push((id, val));
    }
    w.gas_params.override_gas(v);
}

impl Check for Diff {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let c = self.make_at(index, seed, st);
        let mut r = Rng::new(seed ^ 0x77);
        self.run_full(&c, &mut r, st)
    }
    fn finish(&mut self, st: &mut Stats) {
        for (o, n) in self.cover.iter().enumerate() {
            if *n > 0 {
                st.count(format!("op:{o:02x}"), *n);
            }
        }
        st.count("programs_compiled", self.eng.compiled);
    }
}

#[allow(dead_code)]
fn _unused(_: InstructionResult, _: U256) {}
