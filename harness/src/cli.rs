//! C23: `revmc run` and the functions behind it read, list, compile and run exactly the code and the
//! transaction they are given.
//!
//! Every input is written down from bytes we know, so what it denotes is known without reading it
//! back. Executions are judged by a plain revm over a database of our own (`st.rs`); that the
//! compiled side is really executed is seen by making the compiler miscompile XOR.

use crate::{
    engine::{opt_level, Cfg},
    env::World as Env,
    exec::{self, CmpOpts, GuardedStack, Mode},
    fw::{Check, Stats, Violation},
    gen_::{self, Asm, Kind},
    rng::Rng,
    rt::v,
    st::{Acct, Outcome, World, build_bend, execute_cfg, outcome, run},
    txs,
};
use revm_bytecode::{Bytecode, opcode as op};
use revm_context::{BlockEnv, CfgEnv, TxEnv};
use revm_primitives::{Address, B256, Bytes, TxKind, U256, hardfork::SpecId, hex};
use revmc::{EvmCompiler, EvmCompilerFn, RawEvmCompilerFn};
use revmc_cli::{Bench, PreparedBench, fixture_entry_bytecode, fixture_from_bytecode, get_bench, get_benches, read_code_path, read_code_string};
use serde_json::json;
use std::{
    collections::BTreeMap,
    panic::{AssertUnwindSafe, catch_unwind},
    path::{Path, PathBuf},
    process::Command,
};

const SPECS: &[(&str, SpecId)] = &[
    ("frontier", SpecId::FRONTIER),
    ("homestead", SpecId::HOMESTEAD),
    ("tangerine", SpecId::TANGERINE),
    ("spuriousdragon", SpecId::SPURIOUS_DRAGON),
    ("byzantium", SpecId::BYZANTIUM),
    ("petersburg", SpecId::PETERSBURG),
    ("istanbul", SpecId::ISTANBUL),
    ("berlin", SpecId::BERLIN),
    ("london", SpecId::LONDON),
    ("merge", SpecId::MERGE),
    ("shanghai", SpecId::SHANGHAI),
    ("cancun", SpecId::CANCUN),
    ("prague", SpecId::PRAGUE),
    ("osaka", SpecId::OSAKA),
    ("amsterdam", SpecId::AMSTERDAM),
    // Forks that changed nothing here.
    ("frontierthawing", SpecId::FRONTIER),
    ("daofork", SpecId::HOMESTEAD),
    ("constantinople", SpecId::PETERSBURG),
    ("muirglacier", SpecId::ISTANBUL),
    ("arrowglacier", SpecId::LONDON),
    ("grayglacier", SpecId::LONDON),
];

pub struct Cli {
    dir: PathBuf,
    bend: Option<PathBuf>,
    gs: GuardedStack,
    n: u64,
}

/// Assembly for a program, if its instructions all have one.
fn to_asm(r: &mut Rng, code: &[u8]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < code.len() {
        let o = code[i];
        let known = op::OpCode::new(o)?;
        if !out.is_empty() {
            out.push_str(*r.pick(&[" ", "\n", "  ", " "]));
        }
        let n = if (op::PUSH1..=op::PUSH32).contains(&o) { (o - op::PUSH0) as usize } else { 0 };
        out.push_str(known.as_str());
        // Their immediates have no such simple notation.
        if matches!(o, 0xe6..=0xe8) {
            return None;
        }
        if n > 0 {
            let imm = code.get(i + 1..i + 1 + n)?;
            out.push_str(&format!(" 0x{}", hex::encode(imm)));
        }
        i += 1 + n;
    }
    Some(out)
}

fn hex_case(r: &mut Rng, code: &[u8]) -> String {
    let h = hex::encode(code);
    match r.below(3) {
        0 => h,
        1 => h.to_uppercase(),
        _ => h.chars().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

fn program(r: &mut Rng, spec: SpecId, seed: u64) -> Vec<u8> {
    let kind = *r.pick(&[Kind::Straight, Kind::Straight, Kind::Cfg, Kind::Sol]);
    let mut c = gen_::program(r, spec, seed, gen_::MIX_ALL, kind);
    c.truncate(1500);
    if c.is_empty() {
        c.push(op::STOP);
    }
    c
}

/// Ends successfully or not depending on an XOR that the compiler cannot evaluate.
fn verdict_program(r: &mut Rng, spec: SpecId) -> Vec<u8> {
    let mut a = Asm::new();
    let srcs = [op::NUMBER, op::TIMESTAMP, op::ADDRESS, op::CALLER, op::ORIGIN, op::CALLVALUE, op::CALLDATASIZE, op::GASPRICE, op::COINBASE];
    let x = *r.pick(&srcs);
    let y = *r.pick(&srcs);
    a.op(x).op(y).op(op::XOR);
    match r.below(4) {
        // Is it zero, odd, or what OR would give?
        0 => {}
        1 => {
            a.pushu(1).op(op::AND);
        }
        2 => {
            a.op(x).op(y).op(op::OR).op(op::EQ);
        }
        _ => {
            a.pushu(0).op(op::SSTORE).pushu(0).op(op::SLOAD);
        }
    }
    if r.chance(50) {
        a.op(op::ISZERO);
    }
    let l = a.label();
    a.push_label(l).op(op::JUMPI);
    match r.below(3) {
        0 => a.op(op::INVALID),
        1 if spec >= SpecId::BYZANTIUM => a.pushu(0).pushu(0).op(op::REVERT),
        _ => a.op(op::POP).op(op::POP),
    };
    a.place(l);
    a.op(op::STOP);
    a.finish()
}

/// The input a user gives, and the name the tool uses for it.
struct Input {
    arg: String,
    name: String,
    kind: &'static str,
}

fn tail(x: &str) -> String {
    let n = x.chars().count().saturating_sub(1200);
    x.chars().skip(n).collect()
}

impl Cli {
    pub fn new() -> Self {
        let dir = crate::fw::scratch().join(format!("cli-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Self { dir, bend: None, gs: GuardedStack::new(true), n: 0 }
    }

    fn bend(&mut self) -> PathBuf {
        if self.bend.is_none() {
            self.bend = Some(build_bend(&self.dir));
        }
        self.bend.clone().unwrap()
    }

    fn tmp(&self) -> PathBuf {
        let d = self.dir.join(format!("c{}", self.n));
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    fn cmd(&self, dir: &Path, a: &[String]) -> Command {
        let mut c = Command::new(std::env::var_os("VH_REVMC").expect("VH_REVMC"));
        let t = dir.join("t");
        let _ = std::fs::create_dir_all(&t);
        c.arg("run").args(a).env("TMPDIR", &t).env("COLORBT_SHOW_HIDDEN", "0").env("RUST_BACKTRACE", "0").env("NO_COLOR", "1").current_dir(dir);
        c
    }

    fn input(&self, r: &mut Rng, code: &[u8], dir: &Path, st: &mut Stats) -> Input {
        let asm = to_asm(r, code);
        let stem = *r.pick(&["code", "my.contract", "a_b", "Token"]);
        let place = |name: String, b: &[u8]| {
            let sub = dir.join("in");
            std::fs::create_dir_all(&sub).unwrap();
            std::fs::write(sub.join(&name), b).unwrap();
            (sub.join(&name), format!("in/{name}"))
        };
        let mut file = |r: &mut Rng, ext: &str, b: &[u8]| {
            let name = if ext.is_empty() { stem.replace('.', "_") } else { format!("{stem}.{ext}") };
            let (abs, rel) = place(name, b);
            let name = if ext.is_empty() { stem.replace('.', "_") } else { stem.to_string() };
            (if r.chance(50) { abs.to_str().unwrap().to_string() } else { rel }, name)
        };
        let nl = *r.pick(&["", "\n", "\n\n"]);
        let (arg, name, kind) = loop {
            break match r.below(9) {
                0 => (format!("{}{}", r.pick(&["0x", ""]), hex_case(r, code)), "custom".into(), "inline hex"),
                1 => match &asm {
                    Some(a) => (a.clone(), "custom".into(), "inline asm"),
                    None => continue,
                },
                2 => {
                    let (a, n) = file(r, "bin", code);
                    (a, n, "bin file")
                }
                3 => {
                    let more = if r.chance(30) { "6001\nzz\n" } else { "" };
                    let b = format!("{}{}\n{more}", r.pick(&["0x", ""]), hex_case(r, code));
                    let (a, n) = file(r, "hex", b.as_bytes());
                    (a, n, "hex file")
                }
                4 => match &asm {
                    Some(a) => {
                        let (a, n) = file(r, "evm", format!("{a}{nl}").as_bytes());
                        (a, n, "evm file")
                    }
                    None => continue,
                },
                5 => {
                    let b = format!("{}{}{nl}", r.pick(&["0x", ""]), hex_case(r, code));
                    let ext = *r.pick(&["", "txt"]);
                    let (a, n) = file(r, ext, b.as_bytes());
                    (a, n, "other file, hex")
                }
                6 => match &asm {
                    Some(a) => {
                        let ext = *r.pick(&["", "txt"]);
                        let (a, n) = file(r, ext, format!("{a}{nl}").as_bytes());
                        (a, n, "other file, asm")
                    }
                    None => continue,
                },
                7 if !code.is_ascii() => {
                    let ext = *r.pick(&["", "dat"]);
                    let (a, n) = file(r, ext, code);
                    (a, n, "other file, raw")
                }
                7 => continue,
                _ => {
                    let d = dir.join("in").join("dumped");
                    std::fs::create_dir_all(&d).unwrap();
                    std::fs::write(d.join("bytecode.bin"), code).unwrap();
                    std::fs::write(d.join("bytecode.txt"), "nothing of interest").unwrap();
                    let a = if r.chance(50) { d.to_str().unwrap().to_string() } else { "in/dumped".into() };
                    (a, "dumped".into(), "dump directory")
                }
            };
        };
        st.count(format!("input:{kind}"), 1);
        Input { arg, name, kind }
    }

    /// The reading functions on texts and files whose meaning is known.
    fn reading(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let dir = self.tmp();
        for _ in 0..60 {
            let n = r.below(40);
            let code = if r.chance(30) { r.bytes(n) } else { program(r, SpecId::OSAKA, 1) };
            let asm = to_asm(r, &code);
            let h = hex_case(r, &code);
            let p = *r.pick(&["0x", "0x", ""]);
            let nl = *r.pick(&["", "\n", " \n", "\r\n"]);
            // (contents, extension, what they denote)
            let (text, ext, want, kind): (Vec<u8>, Option<&str>, Option<Vec<u8>>, &str) = match r.below(12) {
                0 => (format!("0x{h}{nl}").into_bytes(), None, Some(code), "prefixed hex"),
                1 => (format!("{p}{h}{nl}").into_bytes(), Some("hex"), Some(code), "hex file"),
                2 if !h.is_empty() => (format!("{p}{h}{}\n{}", r.pick(&["", " ", "\t", "\r", "  \r"]), r.pick(&["zz", "6001", "; x", "\n\n"])).into_bytes(), Some("hex"), Some(code), "first line of a hex file"),
                3 => (code.clone(), Some("bin"), Some(code), "binary file"),
                4 => {
                    // Looks like something else, but is binary.
                    let t = (*r.pick(&[&b"0x6001"[..], b"ADD", b"6001", b"", b"\n", b" x "])).to_vec();
                    (t.clone(), Some("bin"), Some(t), "binary file with text")
                }
                5 if !code.is_empty() && !h.is_empty() => (format!("{h}{nl}").into_bytes(), *r.pick(&[None, Some("txt"), Some("sol")]), Some(code), "bare hex"),
                6 if asm.is_some() => (format!("{}{nl}", asm.unwrap()).into_bytes(), *r.pick(&[None, Some("evm"), Some("evm"), Some("txt")]), Some(code), "assembly"),
                7 if !code.is_ascii() && !code.starts_with(b"0x") && !code.starts_with(b"0X") => {
                    (code.clone(), *r.pick(&[None, Some("txt"), Some("o")]), Some(code), "raw without extension")
                }
                8 => (format!("0x{h}{}", r.pick(&["6", "6g", "0x", " 60", "g0"])).into_bytes(), *r.pick(&[None, Some("hex"), Some("txt")]), None, "bad hex"),
                9 if h.len() > 1 => (h.into_bytes(), Some("evm"), None, "hex in an assembly file"),
                10 => (format!("PUSH1 0x01 {}", r.pick(&["ADDD", "PUSH1 0x100", "PUSH2 %x", "0x60", "JUMP 5 5"])).into_bytes(), *r.pick(&[None, Some("evm")]), None, "bad assembly"),
                11 => (vec![b'6', b'0', 0xc3, b'6'], Some("hex"), None, "hex that is not text"),
                _ => continue,
            };
            // A name of a mnemonic made of hexadecimal digits only would be ambiguous; there is none that
            // is also complete hexadecimal.
            let case = json!({"contents": String::from_utf8_lossy(&text), "extension": ext, "kind": kind, "expected": want.as_ref().map(hex::encode)});
            let got = if r.chance(50) {
                catch_unwind(|| read_code_string(&text, ext))
            } else {
                let f = dir.join(match ext {
                    Some(e) => format!("f.{e}"),
                    None => "f".into(),
                });
                std::fs::write(&f, &text).unwrap();
                catch_unwind(|| read_code_path(&f))
            };
            let got = match got {
                Ok(g) => g,
                Err(_) => return Err(v(format!("[reading] {kind}: the reader panicked"), case)),
            };
            st.evals += 1;
            st.count(format!("read:{kind}"), 1);
            match (got, want) {
                (Ok(g), Some(w)) if g == w => {}
                (Err(_), None) => {}
                (g, _) => {
                    return Err(v(
                        format!("[reading] {kind}: read as {}", g.map_or_else(|e| format!("an error ({e})"), |b| hex::encode(b))),
                        case,
                    ));
                }
            }
        }
        if read_code_path(&dir.join("missing.bin")).is_ok() {
            return Err(v("[reading] a missing file was read", json!({})));
        }
        Ok(())
    }

    fn flags(&self, r: &mut Rng, cfg: &Cfg, no_gas: bool) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        a.push(format!("-O{}", cfg.opt));
        if cfg.debug_assertions {
            a.push("--debug-assertions".into());
        }
        if no_gas {
            a.push("--no-gas".into());
        }
        if !cfg.single_error {
            a.push("--no-single-error".into());
        }
        if cfg.inspect_stack {
            a.push("--inspect-stack".into());
        }
        if !cfg.frame_pointers && r.chance(50) {
            a.push("--no-frame-pointers".into());
        }
        a
    }

    fn spec_arg(&self, r: &mut Rng, a: &mut Vec<String>) -> SpecId {
        if r.chance(15) {
            if r.chance(30) {
                a.extend(["--spec-id".into(), "latest".into()]);
            }
            return SpecId::OSAKA;
        }
        let (n, s) = *r.pick(SPECS);
        a.extend(["--spec-id".into(), n.into()]);
        s
    }

    /// What is printed and dumped is the given code at the given fork.
    fn listing(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let dir = self.tmp();
        let mut a = vec![];
        let spec = self.spec_arg(r, &mut a);
        let seed = r.u64();
        let code = program(r, spec, seed);
        let inp = self.input(r, &code, &dir, st);
        a.insert(0, inp.arg.clone());
        let parse_only = r.chance(70);
        if parse_only {
            a.push("--parse-only".into());
        } else {
            // Not run: gas is practically unbounded.
            a.insert(1, "0".into());
            a.push("--display".into());
        }
        let out = r.chance(50).then(|| dir.join("out"));
        if let Some(o) = &out {
            a.extend(["-o".into(), o.to_str().unwrap().into()]);
        }
        let ran = run(self.cmd(&dir, &a), &dir)?;
        st.evals += 1;
        let d = json!({"args": a, "kind": inp.kind, "code": hex::encode(&code), "stdout": tail(&ran.out), "stderr": tail(&ran.err)});
        if ran.code != Some(0) {
            return Err(v(format!("[listing] `revmc run` ended with {:?} on a valid {}", ran.code, inp.kind), d));
        }
        // The library's own listing, under the same settings.
        let mut c = EvmCompiler::new_llvm(false).map_err(|e| v(format!("no compiler: {e}"), json!({})))?;
        c.set_dump_to(Some(dir.join("ref")));
        c.set_module_name(&inp.name);
        let p = c.parse(code.as_slice().into(), spec).map_err(|e| v(format!("[listing] not parsed: {e}"), d.clone()))?;
        let want = format!("{}()\n{p:#}\n", inp.name);
        if ran.out != want {
            return Err(v("[listing] the printed listing is not that of the given code at the given fork", d));
        }
        let dump = out.unwrap_or(dir.join("t").join("revmc-cli")).join(&inp.name);
        if std::fs::read(dump.join("bytecode.bin")).ok().as_deref() != Some(&code) {
            return Err(v("[listing] the dumped bytecode is not the given code", d));
        }
        st.count("listings", 1);
        Ok(())
    }

    /// Objects and libraries written for the given code behave as it.
    fn aot(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let dir = self.tmp();
        let mut a = vec![];
        let spec = self.spec_arg(r, &mut a);
        let world = Env::random(r, spec);
        let no_gas = r.chance(20);
        let mut code = program(r, spec, world.seed);
        if no_gas && r.chance(70) {
            // Something whose costs are static, so that metering shows.
            let n = 1 + r.below(30);
            code.clear();
            for _ in 0..n {
                code.extend([op::PUSH1, r.below(64) as u8, op::CALLDATASIZE, *r.pick(&[op::ADD, op::XOR, op::LT, op::MUL]), op::POP]);
            }
        }
        let inp = self.input(r, &code, &dir, st);
        a.insert(0, inp.arg.clone());
        a.push("--aot".into());
        let mut cfg = Cfg::random(r);
        cfg.opt = cfg.opt.min(2);
        a.extend(self.flags(r, &cfg, no_gas));
        let out = r.chance(50).then(|| dir.join("out"));
        if let Some(o) = &out {
            a.extend(["-o".into(), o.to_str().unwrap().into()]);
        }
        let no_link = r.chance(10);
        if no_link {
            a.push("--no-link".into());
        }
        let mut c = self.cmd(&dir, &a);
        c.env("PATH", std::env::var_os("PATH").unwrap_or_default());
        let ran = run(c, &dir)?;
        st.evals += 1;
        let mut d = json!({"args": a, "kind": inp.kind, "code": hex::encode(&code), "stdout": tail(&ran.out), "stderr": tail(&ran.err)});
        if ran.code != Some(0) {
            return Err(v(format!("[aot] `revmc run --aot` ended with {:?} on a valid {}", ran.code, inp.kind), d));
        }
        let said = |what: &str| ran.err.lines().find_map(|l| l.strip_prefix(what)).map(|p| PathBuf::from(p.trim()));
        let Some(obj) = said("Compiled object file to ").filter(|p| p.is_file()) else {
            return Err(v("[aot] no object file was written", d));
        };
        let root = out.clone().unwrap_or(dir.join("t"));
        if !obj.starts_with(&root) {
            return Err(v(format!("[aot] the object file was written to {}", obj.display()), d));
        }
        let so = said("Linked shared object file to ");
        if no_link {
            if so.is_some() {
                return Err(v("[aot] linked although told not to", d));
            }
            st.count("aot:unlinked", 1);
            return Ok(());
        }
        let Some(so) = so.filter(|p| p.is_file() && p.starts_with(&root)) else {
            return Err(v("[aot] no library was written", d));
        };
        let lib = unsafe { libloading::Library::new(&so) }.map_err(|e| v(format!("[aot] the library does not load: {e}"), d.clone()))?;
        let f = unsafe { lib.get::<RawEvmCompilerFn>(inp.name.as_bytes()) }
            .map_err(|e| v(format!("[aot] the library has no function {:?}: {e}", inp.name), d.clone()))?;
        let f = EvmCompilerFn::new(*f);
        let bc = Bytecode::new_legacy(Bytes::from(code.clone()));
        let gas = 300_000;
        let mut gas = gas;
        let mut exp = crate::diff::reference(&world, &bc, gas, None, st);
        // With gas to spare, reasons of failure are exact.
        if !code.contains(&0x5a) && exp.as_ref().is_some_and(|e| e.halted() && !exec::oogish(e.result) && !e.cut) {
            gas += exec::AMPLE_GAS;
            exp = crate::diff::reference(&world, &bc, gas, None, st);
        }
        if let Some(exp) = exp {
            let observes = code.iter().any(|o| matches!(o, 0x5a | 0xf0 | 0xf1 | 0xf2 | 0xf4 | 0xf5 | 0xfa));
            if !no_gas || (!observes && !exp.halted()) {
                let m = if r.chance(50) { Mode::Wrapper } else { Mode::Guarded };
                let mut got = exec::run_jit(&world, &bc, gas, f, m, &mut self.gs);
                if no_gas {
                    let l = got.segs.last().map(|s| s.gas.remaining);
                    // Whatever begins with a push has static costs.
                    let costs = code.first().is_some_and(|o| (0x60..=0x7f).contains(o)) || (exp.spent(gas) > 0 && static_only(&code));
                    if costs && l <= exp.segs.last().map(|s| s.gas.remaining) && got.segs.len() == 1 && exp.segs.len() == 1 {
                        return Err(v("[aot] gas was metered although turned off", d));
                    }
                    for (g, e) in got.segs.iter_mut().zip(&exp.segs) {
                        g.gas = e.gas.clone();
                    }
                }
                d["difference"] = json!(exec::compare(&exp, &got, CmpOpts { final_stack: cfg.inspect_stack, reasons: !cfg.single_error }).err());
                if !d["difference"].is_null() {
                    return Err(v(format!("[aot] the written library differs from the interpreter: {}", d["difference"].as_str().unwrap()), d));
                }
                st.count(if exp.halted() { "aot:ran_error" } else { "aot:ran_ok" }, 1);
            }
        }
        drop(lib);
        Ok(())
    }

    /// The comparison of compiled and interpreted runs: passes, and notices a miscompilation.
    fn verdict(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let dir = self.tmp();
        let mut sp = vec![];
        let spec = self.spec_arg(r, &mut sp);
        // Gas is practically unbounded here: only programs that are known to end.
        let code = verdict_program(r, spec);
        let inp = self.input(r, &code, &dir, st);
        // The tool's world for bare code.
        let mut w = World::new();
        let me = Address::repeat_byte(0x11);
        let it = Address::repeat_byte(0xcc);
        w.insert(me, Acct { balance: U256::MAX >> 1, ..Default::default() });
        w.insert(it, Acct { nonce: 1, code: code.clone(), ..Default::default() });
        let (mut cfg, mut block, mut tx) = plain(spec, i64::MAX as u64);
        block.basefee = 0;
        tx.caller = me;
        tx.kind = TxKind::Call(it);
        tx.gas_limit = i64::MAX as u64;
        cfg.tx_gas_limit_cap = Some(i64::MAX as u64);
        let bent = r.chance(60);
        let good = execute_cfg(&w, cfg.clone(), &block, &tx, false);
        let bad = execute_cfg(&w, cfg, &block, &tx, true);
        let differs = bent && succeeded(&good) != succeeded(&bad);
        let comp = Cfg::random(r);
        let mut flags = self.flags(r, &Cfg { opt: comp.opt.min(2), ..comp }, false);
        flags.extend(sp);
        let bend = self.bend();
        let so = dir.join("out").join(&inp.name).join("a.so");
        // (arguments, with the miscompiling compiler, whether the compiled code is compared)
        let mut steps: Vec<(Vec<String>, bool, bool)> = vec![];
        let o = vec!["-o".to_string(), dir.join("out").to_str().unwrap().to_string()];
        match r.below(4) {
            0 => {
                steps.push((["--aot".to_string()].iter().chain(&o).cloned().collect(), bent, false));
                steps.push((vec!["--load".into(), so.to_str().unwrap().into()], false, true));
            }
            1 => steps.push((["--aot".to_string(), "--load".to_string()].iter().chain(&o).cloned().collect(), bent, true)),
            2 => {
                // The default place: written first, then found again.
                steps.push((vec!["--aot".into()], bent, false));
                steps.push((vec!["--load".into()], false, true));
            }
            _ => {
                let n = *r.pick(&["1", "1", "0", "2"]);
                steps.push((if n == "1" && r.chance(50) { vec![] } else { vec![n.into()] }, bent, n == "1"));
                if r.chance(20) {
                    steps.last_mut().unwrap().0.push("--jit-only".into());
                }
            }
        }
        for (more, bent, compared) in steps {
            let mut a = vec![inp.arg.clone()];
            // The number of iterations is positional.
            a.extend(more);
            a.extend(flags.iter().cloned());
            let mut c = self.cmd(&dir, &a);
            if bent {
                c.env("LD_PRELOAD", &bend);
            }
            let ran = run(c, &dir)?;
            st.evals += 1;
            let want_ok = !(compared && differs);
            st.count(format!("verdict:{}{}", if want_ok { "agree" } else { "differ" }, if compared { "" } else { ":not compared" }), 1);
            if (ran.code == Some(0)) != want_ok {
                return Err(v(
                    format!(
                        "[verdict] `revmc run` ended with {:?}; the interpreter {}, {}",
                        ran.code,
                        if succeeded(&good) { "succeeds" } else { "fails" },
                        if differs && compared { "the miscompiled code does not" } else { "and so does the compiled code (or it is not run)" },
                    ),
                    json!({"args": a, "kind": inp.kind, "code": hex::encode(&code), "good": good.status, "bad": bad.status, "bent": bent, "stderr": tail(&ran.err)}),
                ));
            }
        }
        Ok(())
    }

    /// Inputs that are refused, and only those.
    fn refused(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let dir = self.tmp();
        std::fs::create_dir_all(dir.join("empty")).unwrap();
        std::fs::write(dir.join("bad.hex"), "0x60zz").unwrap();
        std::fs::write(dir.join("bad.evm"), "PUSH1 1 ADDD").unwrap();
        let bad = *r.pick(&["0x600", "PUSH1 0x100", "nosuchbench", "empty", "bad.hex", "bad.evm", "missing/file.bin", "fibonacci"]);
        let mut a = vec![bad.to_string()];
        if r.chance(50) {
            a.push("--parse-only".into());
        }
        let ran = run(self.cmd(&dir, &a), &dir)?;
        st.evals += 1;
        st.count("refused", 1);
        if ran.code == Some(0) {
            return Err(v(format!("[refused] `revmc run {bad}` ended successfully"), json!({"args": a, "stderr": tail(&ran.err)})));
        }
        let ran = run(self.cmd(&dir, &["--list".into()]), &dir)?;
        let want: String = get_benches().iter().map(|b| format!("{}\n", b.name)).collect();
        if ran.code != Some(0) || ran.out != want {
            return Err(v("[refused] --list does not list the benchmarks", json!({"stdout": ran.out})));
        }
        Ok(())
    }

    /// Transaction fixtures: the prepared run is the fixture's transaction, on its state.
    fn fixture(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let spec = SPECS[r.below(SPECS.len())].1;
        let pool = crate::env::addr_pool(r.u64());
        // Some addresses have leading zeros, which the fixture may leave out.
        let some_address = |r: &mut Rng| Address::from_word(B256::from(if r.chance(25) { r.u256() >> r.range(96, 200) as usize } else { r.u256() }));
        let sender = if r.chance(60) { Some(some_address(r)) } else { None };
        let caller = sender.unwrap_or(Address::repeat_byte(0x11));
        let mut w = World::new();
        w.insert(caller, Acct { balance: U256::from(10u64).pow(U256::from(21)), nonce: r.below(3) as u64, ..Default::default() });
        let mut everyone = pool.clone();
        everyone.push(caller);
        let mut twin = None;
        for p in &pool {
            let mut code = match r.below(5) {
                0 => program(r, spec, 5),
                1 => vec![],
                _ => txs::actor(r, spec, &everyone, 1),
            };
            if let Some(t) = twin.take()
                && r.chance(30)
            {
                code = t;
            }
            code.truncate(1500);
            twin = Some(code.clone());
            let storage = (0..r.below(4)).map(|i| (U256::from(i), r.word())).filter(|x| !x.1.is_zero()).collect();
            w.insert(*p, Acct { balance: U256::from(r.below(20)), nonce: 1, code, storage });
        }
        let hexn = |r: &mut Rng, x: U256| match r.below(4) {
            0 if x.is_zero() => r.pick(&["", "0x", "0x0", "0x00"]).to_string(),
            1 => format!("{x:x}"),
            2 => format!("0x{x:064x}"),
            _ => format!("0x{x:x}"),
        };
        let hexb = |r: &mut Rng, b: &[u8]| match r.below(3) {
            0 if b.is_empty() => String::new(),
            0 if b[0] < 16 => format!("0x{}", &hex::encode(b)[1..]),
            1 => hex::encode(b),
            _ => format!("0x{}", hex::encode(b)),
        };
        let addr = |r: &mut Rng, a: &Address| match r.below(4) {
            3 => format!("0x{:x}", U256::from_be_slice(a.as_slice())),
            0 => hex::encode(a),
            1 => a.to_string(),
            _ => format!("0x{}", hex::encode(a)),
        };
        let mut keys = BTreeMap::new();
        let mut pre = serde_json::Map::new();
        for (a, x) in &w {
            let k = addr(r, a);
            keys.insert(*a, k.clone());
            let mut o = json!({"balance": hexn(r, x.balance), "nonce": hexn(r, U256::from(x.nonce)), "code": hexb(r, &x.code)});
            if !x.storage.is_empty() || r.chance(50) {
                let m: serde_json::Map<_, _> = x.storage.iter().map(|(k, y)| (hexn(r, *k), json!(hexn(r, *y)))).collect();
                // Two notations of one key would be two entries; our keys are distinct numbers.
                o["storage"] = json!(m);
            }
            pre.insert(k, o);
        }
        let (mut cfg, mut block, mut tx) = plain(spec, 0x1000000);
        let mut env = serde_json::Map::new();
        block.basefee = 1;
        if r.chance(70) {
            block.basefee = *r.pick(&[0, 7]);
            env.insert("currentBaseFee".into(), json!(hexn(r, U256::from(block.basefee))));
        }
        if r.chance(70) {
            block.beneficiary = some_address(r);
            env.insert("currentCoinbase".into(), json!(addr(r, &block.beneficiary)));
        }
        if r.chance(70) {
            block.gas_limit = *r.pick(&[0x1000000, 30_000_000, i64::MAX as u64]);
            env.insert("currentGasLimit".into(), json!(hexn(r, U256::from(block.gas_limit))));
        }
        if r.chance(70) {
            block.number = U256::from(r.range(1, 1 << 30));
            env.insert("currentNumber".into(), json!(hexn(r, block.number)));
        }
        if r.chance(70) {
            block.timestamp = U256::from(r.u64() >> 20);
            env.insert("currentTimestamp".into(), json!(hexn(r, block.timestamp)));
        }
        if r.chance(70) {
            let x = r.u256() >> if r.chance(30) { r.range(1, 200) as usize } else { 0 };
            block.prevrandao = Some(B256::from(x));
            env.insert("currentRandom".into(), json!(hexn(r, x)));
        }
        block.set_blob_excess_gas_and_price(0, 3_338_477);
        cfg.tx_gas_limit_cap = Some(block.gas_limit);
        tx.caller = caller;
        tx.gas_limit = *r.pick(&[60_000, 200_000, 1_000_000, 5_000_000]);
        tx.gas_price = if r.chance(70) { *r.pick(&[7u128, 10, 1000]) } else { 0 };
        if tx.gas_price < block.basefee as u128 {
            tx.gas_price = block.basefee as u128;
        }
        let create = r.chance(10);
        let to = *r.pick(&pool);
        tx.kind = if create { TxKind::Create } else { TxKind::Call(to) };
        tx.value = U256::from(*r.pick(&[0u64, 0, 3, 1000]));
        tx.data = if create { txs::initcode(r, spec, &pool, 1).into() } else { let n = r.below(70); r.bytes(n).into() };
        tx.nonce = r.below(4) as u64;
        let mut t = json!({"data": hexb(r, &tx.data), "gasLimit": hexn(r, U256::from(tx.gas_limit))});
        if tx.gas_price != 0 || r.chance(50) {
            t["gasPrice"] = json!(hexn(r, U256::from(tx.gas_price)));
        }
        if tx.nonce != 0 || r.chance(50) {
            t["nonce"] = json!(hexn(r, U256::from(tx.nonce)));
        }
        if let Some(s) = sender {
            t["sender"] = json!(addr(r, &s));
        }
        if !create {
            t["to"] = json!(keys[&to]);
        } else if r.chance(60) {
            t["to"] = json!(*r.pick(&["", "0x"]));
        }
        if !tx.value.is_zero() || r.chance(50) {
            t["value"] = json!(hexn(r, tx.value));
        }
        let text = json!({"a case": {"env": env, "pre": pre, "transaction": [t]}}).to_string();
        let bench = Bench { name: "generated", fixture_json: Some(text.clone().into()), spec_id: Some(spec), assert_success: r.chance(30) };
        let d = json!({"fixture": text, "spec": format!("{spec:?}")});
        crate::fw::current(d.clone());
        let want = execute_cfg(&w, cfg, &block, &tx, false);
        if want.err {
            st.count("fixture:invalid", 1);
            return Ok(());
        }
        if !create && r.chance(50) {
            let e = fixture_entry_bytecode(&bench);
            if e != w[&to].code {
                return Err(v("[fixture] the entry point's code is not the called account's", d));
            }
        }
        let cc = Cfg { opt: r.below(3) as u8, ..Cfg::random(r) };
        let other = SPECS[r.below(SPECS.len())].1;
        let got = catch_unwind(AssertUnwindSafe(|| {
            let mut compiler = EvmCompiler::new_llvm(false).unwrap();
            compiler.set_opt_level(opt_level(cc.opt));
            compiler.single_error(false);
            let (p, keep) = if r.chance(50) { PreparedBench::load(&bench, other) } else {
                let p = PreparedBench::load_with(&bench, other, &mut compiler);
                (p, compiler)
            };
            let (a, b) = (p.run_interpreter(), p.run_jit());
            let again = p.run_jit();
            let x = (outcome(&w, spec, &a.result, &a.state, false), outcome(&w, spec, &b.result, &b.state, false), outcome(&w, spec, &again.result, &again.state, false));
            let checked = catch_unwind(AssertUnwindSafe(|| p.sanity_check())).is_ok();
            drop(p);
            drop(keep);
            (x, checked)
        }));
        if !create && !w[&to].code.is_empty() && r.chance(15) {
            // The called contract from a library, the others interpreted.
            let dir = self.tmp();
            let (obj, so) = (dir.join("f.o"), revmc::shared_library_path(&dir, "f"));
            let made = (|| {
                let mut c = EvmCompiler::new_llvm(true)?;
                c.translate("entry", w[&to].code.as_slice(), spec)?;
                c.write_object_to_file(&obj)?;
                revmc::Linker::new().link(&so, [obj.to_str().unwrap()]).map_err(revmc::eyre::Error::from)
            })();
            if let Err(e) = made {
                return Err(v(format!("[fixture] not compiled ahead of time: {e}"), d));
            }
            let got = catch_unwind(AssertUnwindSafe(|| {
                let (p, lib) = PreparedBench::load_from_library(&bench, other, &so, "entry");
                let a = p.run_jit();
                drop(p);
                drop(lib);
                outcome(&w, spec, &a.result, &a.state, false)
            }));
            st.count("fixture:library", 1);
            let same = got.as_ref().is_ok_and(|o| Outcome { status: class(&o.status), ..o.clone() } == Outcome { status: class(&want.status), ..want.clone() });
            if !same {
                return Err(v("[fixture] the run with the called contract from a library is not the fixture's transaction on its state", d));
            }
        }
        let Ok(((i, j, k), checked)) = got else { return Err(v("[fixture] a valid fixture was not prepared and run", d)) };
        st.evals += 3;
        st.count(if succeeded(&want) { "fixture:ok" } else { "fixture:failed" }, 1);
        if checked != (succeeded(&want) || !bench.assert_success) {
            let how = if checked { "passed" } else { "failed" };
            return Err(v(format!("[fixture] the sanity check {how}, success {}required", if bench.assert_success { "" } else { "not " }), d));
        }
        for (what, o) in [("interpreted", i), ("compiled", j), ("second compiled", k)] {
            // Failure reasons are collapsed by default, and the gas of a failure is all there is.
            let same = Outcome { status: class(&o.status), ..o.clone() } == Outcome { status: class(&want.status), ..want.clone() };
            if !same {
                return Err(v(
                    format!("[fixture] the {what} run is not the fixture's transaction on its state"),
                    json!({"fixture": text, "spec": format!("{spec:?}"), "expected": format!("{want:?}"), "got": format!("{o:?}")}),
                ));
            }
        }
        Ok(())
    }

    /// The built-in benchmarks and bare code.
    fn benches(&mut self, r: &mut Rng, index: u64, st: &mut Stats) -> Result<(), Violation> {
        let all = get_benches();
        let slow = ["snailtracer", "burntpix", "onchain_lm_v2", "seaport", "fiat_token", "univ2_router", "uniswap_v2_pair"];
        let quick: Vec<&Bench> = all.iter().filter(|b| !slow.contains(&b.name)).collect();
        let b = if r.chance(3) && all.len() > quick.len() {
            all.iter().find(|b| b.name == "uniswap_v2_pair").unwrap_or(&all[0])
        } else {
            quick[index as usize % quick.len()]
        };
        if get_bench(b.name).is_none_or(|x| x.fixture_json != b.fixture_json || x.spec_id != b.spec_id) {
            return Err(v(format!("[benches] {} is not found by its name", b.name), json!({})));
        }
        let d = json!({"benchmark": b.name});
        let got = catch_unwind(AssertUnwindSafe(|| {
            let (p, c) = PreparedBench::load(b, SpecId::OSAKA);
            let x = (p.run_interpreter(), p.run_jit());
            drop(p);
            drop(c);
            x
        }));
        let Ok((i, j)) = got else { return Err(v(format!("[benches] {} was not run", b.name), d)) };
        st.evals += 2;
        st.count(format!("bench:{}", b.name), 1);
        if !i.result.is_success() {
            return Err(v(format!("[benches] {} fails: {:?}", b.name, i.result), d));
        }
        if i.result != j.result {
            return Err(v(format!("[benches] {} gives {:?} compiled, {:?} interpreted", b.name, j.result, i.result), d));
        }
        let w = World::new();
        let spec = b.spec_id.unwrap();
        let (x, y) = (outcome(&w, spec, &i.result, &i.state, false), outcome(&w, spec, &j.result, &j.state, false));
        if x != y {
            return Err(v(format!("[benches] {} leaves another state compiled than interpreted", b.name), d));
        }
        if r.chance(50) {
            let dir = self.tmp();
            let mut a = vec![b.name.to_string()];
            if r.chance(60) {
                a.extend(["--aot".into(), "--load".into()]);
            }
            if r.chance(50) {
                // The benchmark's own fork counts.
                a.extend(["--spec-id".into(), "frontier".into()]);
            }
            let ran = run(self.cmd(&dir, &a), &dir)?;
            st.count("benches:cli", 1);
            if ran.code != Some(0) {
                return Err(v(format!("[benches] `revmc run {}` ended with {:?}", b.name, ran.code), json!({"args": a, "stderr": tail(&ran.err)})));
            }
        }
        // Bare code as a fixture.
        let spec = SPECS[r.below(SPECS.len())].1;
        let code = program(r, spec, 9);
        let f = fixture_from_bytecode("x", code.clone(), spec);
        if f.spec_id != Some(spec) || !f.is_fixture() || fixture_entry_bytecode(&f) != code {
            return Err(v("[benches] bare code became another fixture", json!({"code": hex::encode(&code)})));
        }
        Ok(())
    }
}

/// Only instructions with a constant price, so that metering shows.
fn static_only(code: &[u8]) -> bool {
    let mut i = 0;
    while i < code.len() {
        let o = code[i];
        if !matches!(o, 0x00 | 0x01..=0x09 | 0x10..=0x1d | 0x30 | 0x32..=0x36 | 0x50 | 0x58 | 0x5b | 0x5f..=0x9f) {
            return false;
        }
        i += 1 + if (0x60..0x80).contains(&o) { o as usize - 0x5f } else { 0 };
    }
    true
}

fn plain(spec: SpecId, gas_limit: u64) -> (CfgEnv, BlockEnv, TxEnv) {
    let mut cfg = CfgEnv::new_with_spec(spec);
    cfg.disable_nonce_check = true;
    let mut block = BlockEnv {
        number: U256::from(1),
        timestamp: U256::from(1),
        gas_limit,
        basefee: 1,
        beneficiary: Address::ZERO,
        ..Default::default()
    };
    block.set_blob_excess_gas_and_price(0, 3_338_477);
    let tx = TxEnv { chain_id: Some(cfg.chain_id), ..Default::default() };
    (cfg, block, tx)
}

fn succeeded(o: &Outcome) -> bool {
    o.status.starts_with("Success")
}

fn class(s: &str) -> String {
    if s.starts_with("Halt") { "Halt".into() } else { s.into() }
}

impl Check for Cli {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let r = &mut Rng::new(seed);
        self.n += 1;
        let (name, x) = match index % 12 {
            0 | 4 => ("reading", self.reading(r, st)),
            1 | 7 => ("listing", self.listing(r, st)),
            2 | 8 => ("aot", self.aot(r, st)),
            3 | 9 | 11 => ("verdict", self.verdict(r, st)),
            5 | 10 => ("fixture", (0..6).try_for_each(|_| self.fixture(r, st))),
            6 if index % 24 == 6 => ("refused", self.refused(r, st)),
            _ => ("benches", self.benches(r, index / 24, st)),
        };
        crate::fw::set_tag(name);
        let _ = std::fs::remove_dir_all(self.dir.join(format!("c{}", self.n)));
        st.evals += 1;
        st.nontrivial(seed);
        x
    }
    fn finish(&mut self, _: &mut Stats) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
