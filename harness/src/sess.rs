//! Compiler sessions: configuration independence (with ahead-of-time objects), reuse of one
//! compiler for many functions, several compilers at once, and totality on arbitrary input.
use crate::{
    diff,
    engine::{Cfg, apply, new_compiler},
    env::World,
    exec::{self, CmpOpts, GuardedStack, Mode},
    fw::{Check, Stats, Violation, scratch, set_tag},
    gen_::{self, Kind, MIX_ALL, Mix},
    rng::{Rng, hash_bytes},
    rt::{Item, items, items_with},
};
use revm_bytecode::Bytecode;
use revm_primitives::{Bytes, hardfork::SpecId, hex, keccak256};
use revmc::{EvmCompiler, EvmCompilerFn, EvmLlvmBackend, Linker, RawEvmCompilerFn, runtime::RuntimeCacheKey};
use serde_json::{Value, json};
use std::{
    path::{Path, PathBuf},
    sync::Arc,
    time::{Duration, Instant},
};

type Compiler = EvmCompiler<EvmLlvmBackend>;

fn agree(it: &Item, f: EvmCompilerFn, cfg: &Cfg, gs: &mut GuardedStack, mode: Mode, how: &str) -> Result<(), Violation> {
    let got = exec::run_jit(&it.world, &it.bc, it.gas, f, mode, gs);
    let o = CmpOpts { final_stack: cfg.inspect_stack, reasons: !cfg.single_error };
    exec::compare(&it.exp, &got, o).map_err(|e| {
        Violation::new(
            format!("compiled code ({how}) differs from the interpreter: {e}"),
            json!({"item": it.describe(), "gas": it.gas, "config": format!("{cfg:?}"), "how": how, "mode": format!("{mode:?}")}),
        )
    })
}

fn mode(r: &mut Rng) -> Mode {
    if r.chance(50) { Mode::Wrapper } else { Mode::Guarded }
}

fn item(code: Vec<u8>, spec: SpecId, world: World, gas: u64, st: &mut Stats) -> Option<Arc<Item>> {
    let code = Bytes::from(code);
    let bc = Bytecode::new_legacy(code.clone());
    let exp = diff::reference(&world, &bc, gas, None, st)?;
    let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: spec };
    Some(Arc::new(Item { code, key, bc, world, gas, exp }))
}

/// Generated programs of all kinds.
fn programs(r: &mut Rng, n: usize, st: &mut Stats) -> Vec<Arc<Item>> {
    let mut v = vec![];
    while v.len() < n {
        let spec = gen_::spec(r);
        let world = World::random(r, spec);
        let kind = *r.pick(&[Kind::Straight, Kind::Cfg, Kind::Cfg, Kind::Sol, Kind::Twins, Kind::Deep, Kind::Mutant]);
        let mut code = gen_::program(r, spec, world.seed, MIX_ALL, kind);
        code.truncate(3000);
        if let Some(i) = item(code, spec, world, *r.pick(&[300_000, 300_000, 20_000, 5_000_000]), st) {
            v.push(i);
        }
    }
    v
}

fn sname(r: &mut Rng, k: u64) -> String {
    match r.below(6) {
        0 => format!("f{k}"),
        1 => format!("0x{:064x}", k),
        2 => format!("my contract {k}"),
        3 => format!("a.b$c-{k}"),
        4 => format!("\u{fc}n\u{ef}{k}"),
        _ => format!("{}_{k}", "n".repeat(200)),
    }
}

fn dir(what: &str) -> PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = scratch().join(format!("{what}-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct TmpDir(PathBuf);
impl Drop for TmpDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn fail(what: impl Into<String>, d: Value) -> Violation {
    Violation::new(what, d)
}

// ———————————————————————————————————— C11 ————————————————————————————————————

pub struct Configs {
    jit: Option<Compiler>,
    gs: GuardedStack,
    n: u64,
}

impl Configs {
    pub fn new() -> Self {
        Self { jit: None, gs: GuardedStack::new(true), n: 0 }
    }

    /// One program compiled under many configurations.
    fn matrix(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let it = programs(r, 1, st).pop().unwrap();
        if self.n % 40 == 0 {
            self.jit = None;
        }
        let c = self.jit.get_or_insert_with(new_compiler);
        let base = [0u8, 1, 2, 2];
        for opt in base.into_iter().take(2 + r.below(3)) {
            let mut cfg = Cfg::random(r);
            cfg.opt = opt;
            apply(c, &cfg);
            c.set_debug_info(r.chance(30));
            c.clear_ir().map_err(|e| fail(format!("clear_ir: {e}"), json!({})))?;
            self.n += 1;
            let name = format!("m{}", self.n);
            set_tag(&format!("opt={opt}"));
            let f = unsafe { c.jit(&name, &it.code, it.key.spec_id) }
                .map_err(|e| fail(format!("compilation failed: {e}"), json!({"item": it.describe(), "config": format!("{cfg:?}")})))?;
            st.evals += 1;
            st.count(format!("opt:{opt}"), 1);
            agree(&it, f, &cfg, &mut self.gs, mode(r), "jit")?;
        }
        c.set_debug_info(false);
        st.count("matrix", 1);
        if !it.exp.halted() {
            st.nontrivial(hash_bytes(it.world.seed, &it.code));
        }
        Ok(())
    }

    /// With dumps: the files appear, the code is the same, and the listing shows the program.
    fn dumps(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let it = programs(r, 1, st).pop().unwrap();
        let tmp = TmpDir(dir("dump"));
        let mut c = new_compiler();
        let cfg = Cfg::random(r);
        apply(&mut c, &cfg);
        if r.chance(50) {
            c.set_module_name("some module");
        }
        c.set_dump_to(Some(tmp.0.clone()));
        c.dump_assembly(r.chance(70));
        c.dump_unopt_assembly(r.chance(30));
        self.n += 1;
        let d = json!({"item": it.describe(), "config": format!("{cfg:?}")});
        set_tag(&format!("opt={} dump", cfg.opt));
        let f = unsafe { c.jit(&sname(r, self.n), &it.code, it.key.spec_id) }
            .map_err(|e| fail(format!("compilation with dumps failed: {e}"), d.clone()))?;
        let n = walk_files(&tmp.0);
        if n < 3 {
            return Err(fail(format!("dumping wrote {n} files"), d));
        }
        st.count("dump_files", n as u64);
        st.evals += 1;
        st.count("dumps", 1);
        agree(&it, f, &cfg, &mut self.gs, mode(r), "jit with dumps")
    }

    /// Objects compiled ahead of time, linked and loaded.
    fn aot(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let its = if r.chance(30) { items(r, 4) } else { programs(r, 3, st) };
        let tmp = TmpDir(dir("aot"));
        let objects = 1 + r.below(2);
        let mut objs = vec![];
        let mut syms: Vec<(Arc<Item>, String, Cfg)> = vec![];
        let d = |it: &Item| json!({"items": its.iter().map(|i| i.describe()).collect::<Vec<_>>(), "at": it.describe()});
        let mut c: Option<Compiler> = None;
        for o in 0..objects {
            // One compiler for several objects, or one each.
            if c.is_none() || r.chance(50) {
                c = Some(EvmCompiler::new_llvm(true).map_err(|e| fail(format!("new_llvm: {e}"), json!({})))?);
            } else {
                c.as_mut().unwrap().clear_ir().map_err(|e| fail(format!("clear_ir: {e}"), json!({})))?;
            }
            let c = c.as_mut().unwrap();
            if r.chance(50) {
                c.set_module_name(format!("module{o}"));
            }
            let cfg = Cfg::random(r);
            apply(c, &cfg);
            c.set_debug_info(r.chance(20));
            set_tag(&format!("opt={} aot", cfg.opt));
            for (k, it) in its.iter().enumerate() {
                if k % objects != o {
                    continue;
                }
                self.n += 1;
                let name = if r.chance(60) { format!("contract_{}", self.n) } else { sname(r, self.n) };
                c.translate(&name, &it.code, it.key.spec_id)
                    .map_err(|e| fail(format!("ahead-of-time translation failed: {e}"), d(it)))?;
                syms.push((it.clone(), name, cfg));
            }
            let p = tmp.0.join(format!("o{o}.o"));
            let res = if r.chance(50) {
                c.write_object_to_file(&p).map_err(|e| e.to_string())
            } else {
                let mut buf = vec![];
                c.write_object(&mut buf).map_err(|e| e.to_string()).map(|_| std::fs::write(&p, &buf).unwrap())
            };
            res.map_err(|e| fail(format!("writing the object failed: {e}"), d(&its[0])))?;
            objs.push(p);
        }
        let so = revmc::shared_library_path(&tmp.0, "lib");
        let mut linker = Linker::new();
        let flags = r.chance(30);
        if flags {
            linker.cflags(["-Wl,--build-id=none", "-Wl,-soname,vh-soname-1"]);
        }
        linker.link(&so, &objs).map_err(|e| fail(format!("linking failed: {e}"), d(&its[0])))?;
        if flags && !std::fs::read(&so).unwrap().windows(11).any(|w| w == b"vh-soname-1") {
            return Err(fail("flags given to the linker were not passed on", d(&its[0])));
        }
        let lib = unsafe { libloading::Library::new(&so) }.map_err(|e| fail(format!("loading failed: {e}"), d(&its[0])))?;
        for (it, name, cfg) in &syms {
            let f = unsafe { lib.get::<RawEvmCompilerFn>(name.as_bytes()) }
                .map_err(|e| fail(format!("symbol {name:?} missing from the linked library: {e}"), d(it)))?;
            st.evals += 1;
            st.count("aot_functions", 1);
            agree(it, EvmCompilerFn::new(*f), cfg, &mut self.gs, mode(r), "ahead of time")?;
            if !it.exp.halted() {
                st.nontrivial(hash_bytes(it.world.seed ^ 5, &it.code));
            }
        }
        st.count("aot_libraries", 1);
        Ok(())
    }

    /// Gas metering off: everything but gas is as with it on, for programs that do not look at gas.
    fn unmetered(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let mix = Mix { call: 0, create: 0, gas: 0, raw: 0, ..MIX_ALL };
        let spec = gen_::spec(r);
        let world = World::random(r, spec);
        let kind = *r.pick(&[Kind::Straight, Kind::Cfg, Kind::Sol]);
        let mut code = gen_::program(r, spec, world.seed, mix, kind);
        if r.chance(3) {
            // Once wrong with the stack inspected.
            code = hex::decode("6000356007168060001461001257600080fd5b50710400000000000000000000000000000000008001601b6003165567270bdc3da89f89b1600860e01651036020358181071a1161004b565b610100526101206000f3").unwrap();
        }
        let mut pc = 0;
        while pc < code.len() {
            let o = code[pc];
            if matches!(o, 0x5a | 0xf0 | 0xf1 | 0xf2 | 0xf4 | 0xf5 | 0xfa) {
                return Ok(());
            }
            pc += 1 + if (0x60..0x80).contains(&o) { o as usize - 0x5f } else { 0 };
        }
        let Some(it) = item(code, spec, world, 30_000_000, st) else { return Ok(()) };
        if it.exp.halted() || it.exp.cut {
            return Ok(());
        }
        let mut c = new_compiler();
        let cfg = Cfg::random(r);
        apply(&mut c, &cfg);
        let stack_off = r.chance(50);
        let gas_off = !stack_off || r.chance(50);
        c.gas_metering(!gas_off);
        if stack_off {
            // Sound: the reference shows that this run never leaves the stack's bounds.
            unsafe { c.stack_bound_checks(false) };
        }
        set_tag(&format!("opt={} unmetered", cfg.opt));
        let d = json!({"item": it.describe(), "config": format!("{cfg:?}"), "gas_metering": !gas_off, "stack_bound_checks": !stack_off});
        let f = unsafe { c.jit("u", &it.code, spec) }.map_err(|e| fail(format!("compilation failed: {e}"), d.clone()))?;
        let mut got = exec::run_jit(&it.world, &it.bc, it.gas, f, mode(r), &mut self.gs);
        st.evals += 1;
        st.count(if gas_off { "unmetered" } else { "unchecked_stack" }, 1);
        if gas_off {
            for (g, e) in got.segs.iter_mut().zip(&it.exp.segs) {
                g.gas = e.gas.clone();
            }
        }
        let o = CmpOpts { final_stack: cfg.inspect_stack, reasons: !cfg.single_error };
        exec::compare(&it.exp, &got, o)
            .map_err(|e| fail(format!("compiled code without its {} differs: {e}", if gas_off { "gas metering" } else { "stack checks" }), d))
    }
}

fn walk_files(d: &Path) -> usize {
    let mut n = 0;
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            n += walk_files(&e.path());
        } else if e.metadata().is_ok_and(|m| m.len() > 0) {
            n += 1;
        }
    }
    n
}

impl Check for Configs {
    fn case(&mut self, _index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let mut r = Rng::new(seed);
        match r.below(20) {
            0..=9 => self.matrix(&mut r, st),
            10 | 11 => self.dumps(&mut r, st),
            12..=15 => self.aot(&mut r, st),
            _ => self.unmetered(&mut r, st),
        }
    }
}

// ———————————————————————————————————— C12 ————————————————————————————————————

pub struct Sessions {
    gs: GuardedStack,
}

impl Sessions {
    pub fn new() -> Self {
        Self { gs: GuardedStack::new(true) }
    }
}

/// One random life of a compiler.
fn life(r: &mut Rng, gs: &mut GuardedStack, st: &mut Stats) -> Result<(), Violation> {
    // Sessions with gas schedules of their own: every contract another one.
    let priced = r.chance(30);
    let pool = if priced {
        (0..4)
            .flat_map(|_| {
                let spec = *r.pick(&[SpecId::BERLIN, SpecId::CANCUN, SpecId::OSAKA]);
                let mut w = World::random(r, spec);
                diff::custom_gas(r, &mut w);
                items_with(r, 2, Some(&w.gas_params))
            })
            .collect()
    } else if r.chance(50) {
        items(r, 8)
    } else {
        programs(r, 6, st)
    };
    let mut c = new_compiler();
    let mut cfg = Cfg::random(r);
    apply(&mut c, &cfg);
    let mut log: Vec<String> = vec![];
    let mut module = 0u64;
    let mut finalized = false;
    let mut next = 0u64;
    // Translated in the current module, not yet turned into machine code or already.
    let mut staged: Vec<(Arc<Item>, u32, Cfg, String)> = vec![];
    let mut live: Vec<(Arc<Item>, u32, EvmCompilerFn, Cfg, u64)> = vec![];
    // The optimization level is the module's, the rest the function's.
    for _ in 0..r.range(8, 40) {
        let op = r.weighted(&[30, 25, 25, 8, 4, 2, 4, 6, 3]);
        let ctx = |log: &Vec<String>, it: Option<&Item>| json!({"history": log, "item": it.map(|i| i.describe())});
        match op {
            0 => {
                let it = r.pick(&pool).clone();
                next += 1;
                let name = sname(r, next);
                log.push(format!("translate {name:.20}"));
                set_tag(&format!("opt={} session", cfg.opt));
                if priced {
                    c.set_gas_params(it.world.gas_params.clone());
                    st.count("schedules_set", 1);
                }
                match (c.translate(&name, &it.code, it.key.spec_id), finalized) {
                    (Ok(id), false) => {
                        st.count("translated", 1);
                        staged.push((it, id, cfg, name));
                    }
                    (Err(_), true) => st.count("refused_after_finalizing", 1),
                    (Ok(_), true) => return Err(fail("a function was added to a finalized module", ctx(&log, Some(&it)))),
                    (Err(e), false) => return Err(fail(format!("translation failed: {e}"), ctx(&log, Some(&it)))),
                }
            }
            1 if !staged.is_empty() => {
                let k = r.below(staged.len());
                let (it, id, fcfg, _) = staged[k].clone();
                log.push(format!("jit #{id}"));
                let f = unsafe { c.jit_function(id) }.map_err(|e| fail(format!("jit_function failed: {e}"), ctx(&log, Some(&it))))?;
                finalized = true;
                st.count("jitted", 1);
                agree(&it, f, &fcfg, gs, mode(r), "session").map_err(|e| with(e, &log))?;
                st.evals += 1;
                live.push((it, id, f, fcfg, module));
            }
            2 if !live.is_empty() => {
                let (it, _, f, fcfg, m) = r.pick(&live).clone();
                log.push(format!("run module {m}"));
                st.evals += 1;
                if m != module {
                    st.count("runs_after_clear_ir", 1);
                }
                agree(&it, f, &fcfg, gs, mode(r), "session, held").map_err(|e| with(e, &log))?;
                st.nontrivial(hash_bytes(it.world.seed ^ 9, &it.code));
            }
            3 => {
                log.push("clear_ir".into());
                c.clear_ir().map_err(|e| fail(format!("clear_ir: {e}"), ctx(&log, None)))?;
                staged.clear();
                finalized = false;
                module += 1;
                st.count("clear_ir", 1);
            }
            4 if !live.is_empty() => {
                // Frees the function's whole module.
                let k = r.below(live.len());
                let (_, id, _, _, m) = live[k].clone();
                if m == module {
                    continue;
                }
                log.push(format!("free #{id} of module {m}"));
                unsafe { c.free_function(id) }.map_err(|e| fail(format!("free_function: {e}"), ctx(&log, None)))?;
                // The others went with it; freeing them too is in order, and touches nothing else.
                for (_, other, _, _, _) in live.iter().filter(|l| l.4 == m && l.1 != id) {
                    if r.chance(50) {
                        log.push(format!("free #{other} of module {m}"));
                        unsafe { c.free_function(*other) }.map_err(|e| fail(format!("free_function: {e}"), ctx(&log, None)))?;
                        st.count("freed again", 1);
                    }
                }
                live.retain(|l| l.4 != m);
                st.count("freed", 1);
            }
            5 => {
                log.push("clear".into());
                live.clear();
                staged.clear();
                unsafe { c.clear() }.map_err(|e| fail(format!("clear: {e}"), ctx(&log, None)))?;
                finalized = false;
                module += 1;
                st.count("clear", 1);
            }
            6 if !staged.is_empty() && !finalized => {
                let name = r.pick(&staged).3.clone();
                let it = r.pick(&pool).clone();
                log.push(format!("translate again {name:.20}"));
                if c.translate(&name, &it.code, it.key.spec_id).is_ok() {
                    return Err(fail("two functions of one module were given the same name", ctx(&log, Some(&it))));
                }
                st.count("duplicate_names_refused", 1);
            }
            7 if staged.is_empty() => {
                let opt = cfg.opt;
                cfg = Cfg::random(r);
                if module > 0 && r.chance(50) {
                    cfg.opt = opt;
                }
                apply(&mut c, &cfg);
                log.push(format!("configure {cfg:?}"));
            }
            8 => {
                let _ = c.take_timings();
                let mut sink = vec![];
                // Objects can also be written from a JIT module that has not been handed over.
                if !staged.is_empty() && !finalized && r.chance(50) {
                    log.push("write_object".into());
                    finalized = true;
                    c.write_object(&mut sink).map_err(|e| fail(format!("write_object: {e}"), ctx(&log, None)))?;
                    if sink.len() < 100 {
                        return Err(fail("an empty object was written", ctx(&log, None)));
                    }
                    st.count("objects_from_sessions", 1);
                }
            }
            _ => {}
        }
    }
    // Everything still alive behaves, until the compiler goes.
    for (it, _, f, fcfg, _) in &live {
        st.evals += 1;
        agree(it, *f, fcfg, gs, mode(r), "session, end").map_err(|e| with(e, &log))?;
    }
    st.max("functions_alive", live.len() as u64);
    st.count("sessions", 1);
    Ok(())
}

fn with(mut e: Violation, log: &[String]) -> Violation {
    e.detail["history"] = json!(log);
    e
}

/// Several compilers in several threads.
fn parallel(r: &mut Rng, threads: usize, st: &mut Stats) -> Result<(), Violation> {
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let barrier = Arc::new(std::sync::Barrier::new(threads));
    let hs: Vec<_> = seeds
        .into_iter()
        .map(|s| {
            let barrier = barrier.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut r = Rng::new(s);
                    let mut gs = GuardedStack::new(true);
                    let mut st = Stats::default();
                    barrier.wait();
                    let res = life(&mut r, &mut gs, &mut st);
                    (res, st)
                })
                .unwrap()
        })
        .collect();
    let mut first = Ok(());
    for h in hs {
        match h.join() {
            Ok((res, s)) => {
                st.evals += s.evals;
                for (k, v) in s.counters {
                    if !k.starts_with("max:") {
                        st.count(k, v);
                    }
                }
                if first.is_ok() {
                    first = res;
                }
            }
            Err(_) => first = Err(fail("a compiling thread panicked", json!({}))),
        }
    }
    st.count("parallel_sessions", threads as u64);
    first
}

/// A fresh process in which several threads compile their first programs at the same moment.
fn cold_start(seed: u64, st: &mut Stats) -> Result<(), Violation> {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["coldstart", &seed.to_string()])
        .output()
        .map_err(|e| fail(format!("spawn: {e}"), json!({})))?;
    st.evals += 8;
    st.count("cold_starts", 1);
    if out.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&out.stderr);
    let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n");
    Err(fail(
        format!("first compilations of a process, made by several threads at once, failed ({}): {}", out.status, tail.lines().next().unwrap_or("")),
        json!({"seed": seed, "stderr": tail}),
    )
    .certain())
}

pub fn coldstart_main(seed: u64) -> i32 {
    COLD.store(true, std::sync::atomic::Ordering::Relaxed);
    // Every other process: publishing symbols takes long.
    DELAY.store(seed % 2 * (5 + seed / 2 % 60), std::sync::atomic::Ordering::Relaxed);
    let n = 8;
    let barrier = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n as u64)
        .map(|k| {
            let barrier = barrier.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut r = Rng::new(seed ^ k.wrapping_mul(0x1234567));
                let mut gs = GuardedStack::new(true);
                // Prepared first, so that the threads meet inside the compiler.
                let its = programs(&mut r, 3, &mut Stats::default());
                let mut cfg = Cfg::random(&mut r);
                cfg.opt = 0;
                barrier.wait();
                let mut c = new_compiler();
                apply(&mut c, &cfg);
                for (i, it) in its.iter().enumerate() {
                    c.clear_ir().map_err(|e| e.to_string())?;
                    let f = unsafe { c.jit(&format!("f{i}"), &it.code, it.key.spec_id) }.map_err(|e| format!("{e:#}"))?;
                    agree(it, f, &cfg, &mut gs, Mode::Wrapper, "cold start").map_err(|e| e.what)?;
                }
                Ok::<(), String>(())
            })
            .unwrap()
        })
        .collect();
    let mut code = 0;
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                eprintln!("{e}");
                code = 9;
            }
            Err(_) => {
                eprintln!("panic");
                code = 9;
            }
        }
    }
    code
}

impl Check for Sessions {
    fn case(&mut self, _index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let mut r = Rng::new(seed);
        match r.below(20) {
            0..=13 => life(&mut r, &mut self.gs, st),
            14 | 15 => {
                let n = r.range(2, 6);
                parallel(&mut r, n, st)
            }
            16 | 17 => cold_start(r.u64(), st),
            _ => errors(&mut r, st),
        }
    }
}

/// Misuse is reported, not fatal, and leaves the compiler usable.
fn errors(r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 2);
    let mut aot = EvmCompiler::new_llvm(true).map_err(|e| fail(format!("{e}"), json!({})))?;
    let id = aot.translate("x", &its[0].code, its[0].key.spec_id).map_err(|e| fail(format!("{e}"), json!({})))?;
    if unsafe { aot.jit_function(id) }.is_ok() {
        return Err(fail("an ahead-of-time compiler handed out machine code", json!({})));
    }
    let mut o = vec![];
    aot.write_object(&mut o).map_err(|e| fail(format!("write_object after a refused jit: {e}"), json!({})))?;
    if aot.write_object_to_file(Path::new("/nonexistent-dir/x.o")).is_ok() {
        return Err(fail("an object was written to a missing directory", json!({})));
    }
    let tmp = TmpDir(dir("err"));
    let bad = tmp.0.join("bad.o");
    std::fs::write(&bad, b"not an object").unwrap();
    if Linker::new().link(&tmp.0.join("x.so"), [&bad]).is_ok() {
        return Err(fail("a file that is no object was linked", json!({})));
    }
    let mut l = Linker::new();
    l.cc(Some("/nonexistent/cc".into()));
    if l.link(&tmp.0.join("x.so"), [&bad]).is_ok() {
        return Err(fail("linking without a C compiler succeeded", json!({})));
    }
    st.evals += 5;
    st.count("misuse", 5);
    Ok(())
}

// ———————————————————————————————————— C10 ————————————————————————————————————

pub struct Totality {
    gs: GuardedStack,
    n: u64,
    /// CPU time of analysing and compiling a plain 8 KiB program here, the unit of the bounds.
    unit: Option<(Duration, Duration)>,
}

impl Totality {
    pub fn new() -> Self {
        Self { gs: GuardedStack::new(true), n: 0, unit: None }
    }
}

fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

/// Inputs built to make a compiler work hard or trip.
fn adversarial(r: &mut Rng, size: usize) -> (&'static str, Vec<u8>) {
    let mut c: Vec<u8> = vec![];
    let rep = |c: &mut Vec<u8>, unit: &[u8]| {
        while c.len() + unit.len() <= size {
            c.extend_from_slice(unit);
        }
    };
    let k = match r.below(22) {
        0 => {
            rep(&mut c, &[0x5b]);
            "jumpdests"
        }
        1 => {
            // A chain of constant exponentiations.
            c.extend([0x60, 3]);
            rep(&mut c, &[0x7f, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0x0a]);
            "constant exp chain"
        }
        2 => {
            c.extend([0x60, 3, 0x60, 5]);
            rep(&mut c, &[0x81, 0x0a]);
            "exp of itself"
        }
        3 => {
            // Blocks that jump to the next with the destination computed.
            while c.len() + 12 < size.min(60_000) {
                let d = c.len() as u16 + 8;
                let x = d.wrapping_sub(7);
                c.extend([0x61, (x >> 8) as u8, x as u8, 0x60, 7, 0x01, 0x56, 0xfe, 0x5b]);
            }
            "computed jump chain"
        }
        4 => {
            // Jumps on data: every jumpdest is a possible target.
            rep(&mut c, &[0x5b, 0x5f, 0x35, 0x56]);
            "dynamic jumps everywhere"
        }
        5 => {
            rep(&mut c, &[0x5b, 0x60, 0, 0x35, 0x60, 0, 0x57]);
            "conditional jumps to zero"
        }
        6 => {
            rep(&mut c, &[0x80]);
            "dups"
        }
        7 => {
            rep(&mut c, &[0x50]);
            "pops"
        }
        8 => {
            c.extend([0x5f; 17]);
            rep(&mut c, &[0x9f, 0x8f, 0x50]);
            "swaps"
        }
        9 => {
            rep(&mut c, &[0x5f, 0x5f, 0x5f, 0x5f, 0x5f, 0x5f, 0x5a, 0xf1, 0x50]);
            "calls"
        }
        10 => {
            rep(&mut c, &[0x60, 0, 0x51, 0x60, 0, 0x52]);
            "memory churn"
        }
        11 => {
            rep(&mut c, &[0x7f]);
            "push32 of push32"
        }
        12 => {
            let n = size;
            c = r.bytes(n);
            "random bytes"
        }
        13 => {
            // Subroutine called from everywhere: the return address is on the stack.
            c.extend([0x60, 6, 0x56, 0x5b, 0x56, 0x00, 0x5b]);
            while c.len() + 8 < size.min(65_000) {
                let ret = c.len() as u16 + 6;
                c.extend([0x61, (ret >> 8) as u8, ret as u8, 0x60, 3, 0x56, 0x5b]);
            }
            "shared subroutine"
        }
        14 => {
            // Nested subroutine calls, depth first.
            let n = (size.min(60_000) / 12).max(2);
            let at = |i: usize| (i * 12) as u16;
            for i in 0..n {
                let ret = at(i) + 8;
                let callee = at((i + 1) % n);
                c.extend([0x5b, 0x61, (ret >> 8) as u8, ret as u8, 0x61, (callee >> 8) as u8, callee as u8, 0x56, 0x5b, 0x56, 0x00, 0x00]);
            }
            "nested subroutines"
        }
        15 => {
            c.extend([0x60, 1]);
            rep(&mut c, &[0x80, 0x02]);
            "squaring chain"
        }
        16 => {
            // Diamonds: exponentially many paths.
            while c.len() + 12 < size.min(60_000) {
                let d = c.len() as u16 + 10;
                c.extend([0x5f, 0x35, 0x61, (d >> 8) as u8, d as u8, 0x57, 0x60, 1, 0x50, 0x5b, 0x5b]);
            }
            "diamonds"
        }
        17 => {
            // Diamonds that push different constants, then jump to one of them.
            while c.len() + 20 < size.min(60_000) {
                let d = c.len() as u16 + 11;
                c.extend([0x60, r.u64() as u8, 0x5f, 0x35, 0x61, (d >> 8) as u8, d as u8, 0x57, 0x60, 1, 0x01, 0x5b, 0x50]);
            }
            "diamonds with constants"
        }
        18 => {
            rep(&mut c, &[0x60, 1, 0x60, 2, 0x57, 0x5b]);
            "constant conditional jumps"
        }
        19 => {
            rep(&mut c, &[0x5b, 0x60, 1, 0x01, 0x80, 0x61, 0x27, 0x10, 0x10, 0x5f, 0x57]);
            "loops"
        }
        20 => {
            let spec = gen_::spec(r);
            let mut v = vec![];
            while v.len() < size.min(24_000) {
                let w = r.u64();
                v.extend(gen_::program(r, spec, w, MIX_ALL, Kind::Straight));
                v.push(0x5b);
            }
            c = v;
            "long generated program"
        }
        _ => {
            rep(&mut c, &[0x36, 0x60, 1, 0x90, 0x91, 0x82, 0x54, 0x55, 0x80, 0x51, 0x53]);
            "mixed"
        }
    };
    (k, c)
}

impl Check for Totality {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let mut r = Rng::new(seed);
        if index % 200 == 0 {
            return opt3(if index == 0 { 0 } else { seed | 1 }, st);
        }
        if r.chance(10) {
            return budget(&mut r, st);
        }
        let spec = gen_::spec(&mut r);
        let small = !r.chance(25);
        let (kind, code) = if small {
            match r.below(4) {
                0 => ("noise", gen_::noise(&mut r)),
                1 => {
                    let n = r.below(300);
                    ("bytes", r.bytes(n))
                }
                2 => {
                    let n = r.range(1, 600);
                    adversarial(&mut r, n)
                }
                _ => {
                    let w = r.u64();
                    let p = gen_::program(&mut r, spec, w, MIX_ALL, Kind::Mutant);
                    ("mutant", gen_::mutate(&mut r, p))
                }
            }
        } else {
            let n = *r.pick(&[2_000, 6_000, 12_000, 24_576]);
            adversarial(&mut r, n)
        };
        let (ua, uc) = *self.unit.get_or_insert_with(calibrate);
        let mut cfg = Cfg::random(&mut r);
        if code.len() > 1500 {
            cfg.opt = if r.chance(20) { 1 } else { 0 };
            // An unlimited evaluation budget is the caller's own choice to spend the time.
            if cfg.compiler_gas == u64::MAX {
                cfg.compiler_gas = 100_000;
            }
        }
        let d = json!({"kind": kind, "code": if code.len() < 3000 { hex::encode(&code) } else { format!("{} bytes", code.len()) }, "spec": format!("{spec:?}"), "config": format!("{cfg:?}")});
        crate::fw::current(d.clone());
        let mut c = new_compiler();
        apply(&mut c, &cfg);
        set_tag(&format!("opt={} totality {kind}", cfg.opt));
        st.count(format!("input:{kind}"), 1);
        st.max("code_bytes", code.len() as u64);

        // Analysis and its listings.
        let t = cpu();
        let b = c.parse((&code).into(), spec).map_err(|e| fail(format!("analysis refused the bytecode: {e}"), d.clone()))?;
        let spent = cpu() - t;
        st.max("analysis_ms", spent.as_millis() as u64);
        if std::env::var_os("VH_SLOW").is_some() && spent.as_millis() > 100 {
            eprintln!("SLOW analysis {kind} {} {spent:?} {cfg:?}", code.len());
        }
        st.evals += 1;
        let scale = 1 + (code.len() / 8192) as u32;
        let bound = (ua * 600 * scale).max(Duration::from_secs(20 * scale as u64));
        if spent > bound {
            return Err(fail(format!("analysing {} bytes took {spent:?} of CPU time (a plain program of 8 KiB: {ua:?})", code.len()), d));
        }
        let t = cpu();
        let text = format!("{b}");
        let mut dot = String::new();
        if text.is_empty() || b.write_dot(&mut dot).is_err() || !dot.starts_with("digraph") {
            return Err(fail("empty listing", d));
        }
        let spent = cpu() - t;
        st.max("listing_ms", spent.as_millis() as u64);
        if spent > (ua * 600 * scale).max(Duration::from_secs(20 * scale as u64)) {
            return Err(fail(format!("listing {} bytes took {spent:?} of CPU time", code.len()), d));
        }
        drop(b);

        // Machine code.
        let limit = if crate::fw::tier() == "thorough" { 13_000 } else { 6_100 };
        if code.len() > limit {
            return Ok(());
        }
        self.n += 1;
        let t = cpu();
        let f = unsafe { c.jit("f", &code, spec) }.map_err(|e| fail(format!("compilation failed: {e}"), d.clone()))?;
        let spent = cpu() - t;
        st.max("compile_ms", spent.as_millis() as u64);
        if std::env::var_os("VH_SLOW").is_some() && spent.as_millis() > 1000 {
            eprintln!("SLOW compile {kind} {} {spent:?} {cfg:?}", code.len());
        }
        st.count("compiled", 1);
        let bound = (uc * 200 * scale).max(Duration::from_secs(60 * scale as u64));
        if spent > bound {
            return Err(fail(format!("compiling {} bytes took {spent:?} of CPU time (a plain program of 8 KiB: {uc:?})", code.len()), d));
        }
        let world = World::random(&mut r, spec);
        let Some(it) = item(code, spec, world, *r.pick(&[100_000u64, 3_000, 1_000_000]), st) else { return Ok(()) };
        st.evals += 1;
        agree(&it, f, &cfg, &mut self.gs, mode(&mut r), kind)?;
        st.nontrivial(hash_bytes(index, &it.code));
        Ok(())
    }
}

/// Compile-time evaluation stays within its budget: of a chain of jumps whose destinations must be
/// computed, no more can be resolved than the budget pays for.
fn budget(r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let spec = *r.pick(&[SpecId::LONDON, SpecId::CANCUN, SpecId::OSAKA]);
    let n = r.range(1, 300);
    let mut code: Vec<u8> = vec![];
    let (op, cost) = *r.pick(&[(0x01u8, 3u64), (0x03, 3), (0x02, 5), (0x0a, 60), (0x16, 3), (0x04, 5), (0x1b, 3)]);
    for _ in 0..n {
        let d = code.len() as u16 + 8;
        // destination <op> neutral element
        let (x, y): (u16, u8) = match op {
            0x01 => (d - 7, 7),
            0x03 => (d + 7, 7),
            0x02 | 0x04 | 0x0a => (d, 1),
            0x16 => (d, 255),
            _ => (d, 0),
        };
        if op == 0x16 && d > 255 {
            break;
        }
        // SHL takes the shift from the top, the others the destination.
        if op == 0x1b {
            code.extend([0x61, (x >> 8) as u8, x as u8, 0x60, y, op, 0x56, 0xfe, 0x5b]);
        } else {
            code.extend([0x60, y, 0x61, (x >> 8) as u8, x as u8, op, 0x56, 0xfe, 0x5b]);
        }
    }
    let max = (code.len() / 9) as u64;
    let limit = match r.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => 100_000,
        3 => r.below((cost * max + 10) as usize) as u64,
        _ => cost * r.below(max as usize + 2) as u64,
    };
    let mut c = new_compiler();
    let mut cfg = Cfg::random(r);
    cfg.compiler_gas = limit;
    apply(&mut c, &cfg);
    let d = json!({"code": hex::encode(&code), "limit": limit, "spec": format!("{spec:?}")});
    let b = c.parse((&code).into(), spec).map_err(|e| fail(format!("analysis refused the bytecode: {e}"), d.clone()))?;
    let resolved = format!("{b}").lines().filter(|l| l.trim_start().starts_with("JUMP %bb")).count() as u64;
    st.evals += 1;
    st.count("budget_cases", 1);
    if resolved > 0 && resolved < max {
        st.count("budget_exhausted", 1);
    }
    st.count("budget_resolved", resolved);
    if resolved as u128 * cost as u128 > limit as u128 {
        return Err(fail(
            format!("compile-time evaluation worth {} gas was done under a limit of {limit}", resolved * cost),
            d,
        ));
    }
    Ok(())
}

/// The highest optimization level, in processes of their own: the code generator can end the
/// process (see known_findings.json).
fn opt3(seed: u64, st: &mut Stats) -> Result<(), Violation> {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["opt3", &seed.to_string()])
        .output()
        .map_err(|e| fail(format!("spawn: {e}"), json!({})))?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let n = text.lines().filter(|l| *l == "ok").count() as u64;
    st.count("opt:3", n);
    st.evals += n;
    if out.status.success() {
        return Ok(());
    }
    let last = text.lines().rev().find(|l| l.starts_with("case ")).unwrap_or("").to_string();
    let key = match err.lines().find_map(|l| l.strip_prefix("LLVM-FATAL ")) {
        Some(f) => format!("llvm-fatal {}", f.trim()),
        None => "opt=3 failure".into(),
    };
    let tail: String = err.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
    Err(fail(format!("compiling at the highest optimization level failed ({}): {key}", out.status), json!({"seed": seed, "case": last, "stderr": tail})).key(key))
}

const OPT3_CODE: &str = "5b60003636030168010000000000000001600361fff035181b7103cb67a18a7def9a56075b368ecce4baefdc81600035610066575050505b5a60011661003757505b6015506060516001018060605260041161004157";

pub fn opt3_main(seed: u64) -> i32 {
    let mut r = Rng::new(seed);
    let mut gs = GuardedStack::new(true);
    let its = if seed == 0 {
        let mut w = World::random(&mut r, SpecId::ISTANBUL);
        w.calldata = vec![];
        item(hex::decode(OPT3_CODE).unwrap(), SpecId::ISTANBUL, w, 300_000, &mut Stats::default()).into_iter().collect()
    } else {
        programs(&mut r, 12, &mut Stats::default())
    };
    let mut c = new_compiler();
    for (i, it) in its.iter().enumerate() {
        let mut cfg = if seed == 0 { Cfg::default_release() } else { Cfg::random(&mut r) };
        cfg.opt = 3;
        apply(&mut c, &cfg);
        println!("case {} {:?} {cfg:?}", it.code, it.key.spec_id);
        set_tag("opt=3");
        let _ = c.clear_ir();
        match unsafe { c.jit(&format!("f{i}"), &it.code, it.key.spec_id) } {
            Err(e) => {
                eprintln!("compilation failed: {e}");
                return 9;
            }
            Ok(f) => {
                if let Err(e) = agree(it, f, &cfg, &mut gs, Mode::Wrapper, "opt=3") {
                    eprintln!("{}", e.what);
                    return 9;
                }
            }
        }
        println!("ok");
    }
    0
}

/// The time this machine needs for an ordinary program.
fn calibrate() -> (Duration, Duration) {
    let mut code = vec![];
    let mut r = Rng::new(77);
    while code.len() < 8192 {
        let w = r.u64();
        code.extend(gen_::program(&mut r, SpecId::CANCUN, w, MIX_ALL, Kind::Straight));
        code.push(0x5b);
    }
    code.truncate(8192);
    let mut c = new_compiler();
    let mut cfg = Cfg::default_release();
    cfg.opt = 0;
    apply(&mut c, &cfg);
    let t = cpu();
    let _ = c.parse((&code).into(), SpecId::CANCUN);
    let a = cpu() - t;
    let t = Instant::now();
    let _ = unsafe { c.jit("cal", &code, SpecId::CANCUN) };
    (a, t.elapsed())
}

// ——————————————————————————— injected delays ———————————————————————————

static DELAY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Interposes the library call that publishes a batch of symbols, so that cold-start runs can make
/// it slow: other threads then meet the compiler's bookkeeping between its steps.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn LLVMOrcJITDylibDefine(jd: *mut std::ffi::c_void, mu: *mut std::ffi::c_void) -> *mut std::ffi::c_void {
    type F = unsafe extern "C" fn(*mut std::ffi::c_void, *mut std::ffi::c_void) -> *mut std::ffi::c_void;
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *REAL.get_or_init(|| unsafe { libc::dlsym(libc::RTLD_NEXT, c"LLVMOrcJITDylibDefine".as_ptr()) as usize });
    let ms = DELAY.load(std::sync::atomic::Ordering::Relaxed);
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms));
    }
    unsafe { std::mem::transmute::<usize, F>(p)(jd, mu) }
}

/// In cold-start runs, also hides this executable's own exported builtins from the process-wide
/// symbol search: programs that embed the compiler do not export them as a rule.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn LLVMOrcCreateDynamicLibrarySearchGeneratorForProcess(
    result: *mut *mut std::ffi::c_void,
    prefix: std::ffi::c_char,
    filter: *mut std::ffi::c_void,
    ctx: *mut std::ffi::c_void,
) -> *mut std::ffi::c_void {
    type F = unsafe extern "C" fn(*mut *mut std::ffi::c_void, std::ffi::c_char, *mut std::ffi::c_void, *mut std::ffi::c_void) -> *mut std::ffi::c_void;
    unsafe extern "C" {
        fn LLVMOrcSymbolStringPoolEntryStr(s: *mut std::ffi::c_void) -> *const std::ffi::c_char;
    }
    unsafe extern "C" fn hide(_: *mut std::ffi::c_void, sym: *mut std::ffi::c_void) -> std::ffi::c_int {
        let n = unsafe { std::ffi::CStr::from_ptr(LLVMOrcSymbolStringPoolEntryStr(sym)) };
        !n.to_bytes().starts_with(b"__revmc") as i32
    }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, c"LLVMOrcCreateDynamicLibrarySearchGeneratorForProcess".as_ptr()) } as usize;
    let cold = COLD.load(std::sync::atomic::Ordering::Relaxed);
    let filter = if cold && filter.is_null() { hide as *mut std::ffi::c_void } else { filter };
    unsafe { std::mem::transmute::<usize, F>(p)(result, prefix, filter, ctx) }
}
static COLD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
