//! Runtime checks: the background-compilation service under concurrent and hostile use.
use crate::{
    env::World,
    exec::{self, CmpOpts, GuardedStack, Mode, Trace},
    fw::{Check, Stats, Violation},
    gen_::{self, Kind, MIX_ALL},
    rng::{Rng, hash_bytes},
};
use revm_bytecode::Bytecode;
use revm_context_interface::cfg::GasParams;
use revm_primitives::{B256, Bytes, hardfork::SpecId, keccak256};
use revmc::{
    OptimizationLevel,
    runtime::{
        AotRequest, ArtifactStore,
        CompilationEvent, CompilationKind, CompiledProgram, InterpretReason, JitBackend,
        LookupDecision, LookupRequest, RuntimeArtifactStore, RuntimeCacheKey,
        RuntimeConfig, RuntimeStatsSnapshot,
    },
};
use serde_json::{Value, json};
use std::{
    collections::HashSet,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering::*},
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RtFocus {
    /// The right program, under concurrency, clearing and eviction.
    Right,
    /// Nothing hangs, everything ends.
    Live,
    /// Promotion, limits, eviction, blocking.
    Policy,
    /// Counters and events.
    Stats,
    /// Persisted artifacts.
    Aot,
    /// Out-of-process compilation.
    Helper,
}

/// How long any single operation of the service may take before it counts as hung.
pub const HANG: Duration = Duration::from_secs(60);

pub struct Item {
    pub code: Bytes,
    pub key: RuntimeCacheKey,
    pub bc: Bytecode,
    pub world: World,
    pub gas: u64,
    pub exp: Trace,
}

impl Item {
    pub fn req(&self) -> LookupRequest {
        LookupRequest { key: self.key, code: self.code.clone() }
    }
    pub fn aot(&self) -> AotRequest {
        AotRequest { code_hash: self.key.code_hash, code: self.code.clone(), spec_id: self.key.spec_id }
    }
    pub fn describe(&self) -> Value {
        json!({"code": format!("{}", self.code), "spec": format!("{:?}", self.key.spec_id), "calldata": format!("{}", Bytes::from(self.world.calldata.clone()))})
    }
}

/// Programs whose outcomes tell them apart: same code at several forks, near-identical codes,
/// generated programs.
pub fn items(r: &mut Rng, n: usize) -> Vec<Arc<Item>> {
    items_with(r, n, None)
}

pub fn items_with(r: &mut Rng, n: usize, gp: Option<&GasParams>) -> Vec<Arc<Item>> {
    let mut v: Vec<Arc<Item>> = vec![];
    let mut seen = HashSet::new();
    let base = r.u64();
    while v.len() < n {
        let mut spec = gen_::spec(r);
        let wseed = r.u64();
        let code: Vec<u8> = match r.below(5) {
            // Returns a constant; neighbours differ in one byte.
            0 | 1 => {
                let k = (base as usize % 200 + v.len()) as u8;
                vec![0x60, k, 0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xf3]
            }
            // Meaning and price depend on the fork.
            2 => {
                spec = *r.pick(&[SpecId::FRONTIER, SpecId::BYZANTIUM, SpecId::ISTANBUL, SpecId::BERLIN, SpecId::LONDON, SpecId::SHANGHAI, SpecId::CANCUN, SpecId::OSAKA]);
                let k = r.below(3) as u8;
                vec![0x60, k, 0x54, 0x30, 0x31, 0x01, 0x5a, 0x01, 0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xf3]
            }
            _ => {
                let kind = *r.pick(&[Kind::Straight, Kind::Cfg, Kind::Sol]);
                let mut c = gen_::program(r, spec, wseed, MIX_ALL, kind);
                c.truncate(2000);
                c
            }
        };
        if code.is_empty() {
            continue;
        }
        let mut world = World::random(r, spec);
        world.seed = wseed;
        if let Some(gp) = gp {
            world.custom_gas = true;
            world.gas_params = gp.clone();
        }
        let code = Bytes::from(code);
        if !seen.insert(RuntimeCacheKey { code_hash: keccak256(&code), spec_id: spec }) {
            continue;
        }
        v.extend(item(world, code, spec));
    }
    v
}

fn item(world: World, code: Bytes, spec: SpecId) -> Option<Arc<Item>> {
    let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: spec };
    let bc = Bytecode::new_legacy(code.clone());
    let gas = 300_000;
    let exp = crate::diff::reference(&world, &bc, gas, None, &mut Stats::default())?;
    Some(Arc::new(Item { code, key, bc, world, gas, exp }))
}

/// Programs that end in a failure, each in its own way.
pub fn failing_items(r: &mut Rng, n: usize) -> Vec<Arc<Item>> {
    (0..n)
        .filter_map(|k| {
            let spec = *r.pick(&[SpecId::FRONTIER, SpecId::ISTANBUL, SpecId::CANCUN, SpecId::OSAKA]);
            // JUMPDEST CALLDATASIZE POP: something to run first, unique per item.
            let mut code = vec![0x5b, 0x60, k as u8, 0x60, r.u64() as u8, 0x01, 0x50];
            code.extend_from_slice(*r.pick(&[
                // Unknown opcode, INVALID, invalid jumps (static, dynamic), underflow, unbounded
                // loop, overflow, an opcode not active on old forks, RETURNDATACOPY out of bounds.
                &[0x0c][..],
                &[0xfe],
                &[0x60, 0x03, 0x56],
                &[0x36, 0x60, 0x77, 0x01, 0x56],
                &[0x01],
                &[0x5b, 0x60, 0x07, 0x56],
                &[0x5b, 0x60, 0x01, 0x60, 0x07, 0x56],
                &[0x5f],
                &[0x60, 0x01, 0x60, 0xff, 0x60, 0x00, 0x3e],
                &[0x60, 0x00, 0x60, 0x00, 0xfd],
            ]));
            item(World::random(r, spec), Bytes::from(code), spec)
        })
        .collect()
}

pub fn observe(it: &Item, p: &CompiledProgram, gs: &mut GuardedStack) -> Result<(), Violation> {
    observe_with(it, p, gs, false)
}

pub fn observe_with(it: &Item, p: &CompiledProgram, gs: &mut GuardedStack, reasons: bool) -> Result<(), Violation> {
    if p.key != it.key {
        return Err(Violation::new(
            "a lookup returned a program of another contract or fork",
            json!({"asked": it.describe(), "got": format!("{:?}", p.key)}),
        )
        .certain());
    }
    let got = exec::run_jit(&it.world, &it.bc, it.gas, p.func, Mode::Wrapper, gs);
    exec::compare(&it.exp, &got, CmpOpts { final_stack: false, reasons }).map_err(|e| {
        Violation::new(
            format!("a program delivered by the runtime does not behave like the contract: {e}"),
            json!({"contract": it.describe(), "kind": format!("{:?}", p.kind), "difference": e}),
        )
        .certain()
    })
}

/// Tracks what every thread is doing, to catch operations that never return.
pub struct Watch {
    slots: Mutex<Vec<Option<(String, Instant)>>>,
}

impl Watch {
    fn new(n: usize) -> Arc<Self> {
        Arc::new(Self { slots: Mutex::new(vec![None; n]) })
    }
    fn enter(&self, i: usize, what: impl Into<String>) {
        self.slots.lock().unwrap()[i] = Some((what.into(), Instant::now()));
    }
    fn leave(&self, i: usize) {
        self.slots.lock().unwrap()[i] = None;
    }
    fn stuck(&self) -> Option<String> {
        let s = self.slots.lock().unwrap();
        s.iter().flatten().find(|(_, t)| t.elapsed() > HANG).map(|(w, _)| w.clone())
    }
}

/// Runs `f` on its own thread; `Err` when it does not return in time.
pub fn bounded<T: Send + 'static>(
    what: &str,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<T, Violation> {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new()
        .name("vh-op".into())
        .spawn(move || {
            let _ = tx.send(f());
        })
        .unwrap();
    match rx.recv_timeout(HANG) {
        Ok(v) => {
            let _ = h.join();
            Ok(v)
        }
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
            Err(Violation::new(format!("{what} did not return within {HANG:?}"), json!({"operation": what})).certain())
        }
        Err(_) => Err(Violation::new(format!("{what} panicked"), json!({"operation": what})).certain()),
    }
}

/// Goes through the command queue twice: everything sent or observed before is processed.
pub fn barrier(b: &JitBackend) -> Result<(), Violation> {
    for _ in 0..2 {
        let b = b.clone();
        let r = bounded("a synchronous request for empty code", move || {
            b.compile_jit_sync(LookupRequest {
                key: RuntimeCacheKey { code_hash: B256::ZERO, spec_id: SpecId::CANCUN },
                code: Bytes::new(),
            })
        })?;
        if let Err(e) = r {
            return Err(Violation::new(format!("the service died: {e}"), json!({})).certain());
        }
    }
    Ok(())
}

/// Waits until all work is done.
pub fn quiesce(b: &JitBackend) -> Result<RuntimeStatsSnapshot, Violation> {
    let t = Instant::now();
    loop {
        barrier(b)?;
        let s = b.stats();
        if s.events_queued == 0 && s.command_queue_len == 0 && s.pending_jobs == 0 {
            // A job's result may have dispatched nothing; one more pass settles it.
            barrier(b)?;
            let s = b.stats();
            if s.events_queued == 0 && s.pending_jobs == 0 {
                return Ok(s);
            }
        }
        if t.elapsed() > HANG {
            return Err(Violation::new(
                format!("the service does not come to rest: {s:?}"),
                json!({"stats": format!("{s:?}")}),
            )
            .certain());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

pub fn ends(b: JitBackend, what: &str) -> Result<(), Violation> {
    bounded(&format!("dropping the last handle ({what})"), move || drop(b))
}

/// Threads the service started that are still alive.
pub fn service_threads() -> usize {
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return 0 };
    d.filter_map(|e| std::fs::read_to_string(e.ok()?.path().join("comm")).ok())
        .filter(|n| n.starts_with("revmc-"))
        .count()
}

/// Whether the service has threads that stay (threads of an earlier service may still be ending).
pub fn has_threads() -> bool {
    let t = Instant::now();
    while service_threads() > 0 {
        if t.elapsed() > Duration::from_secs(10) {
            return true;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    false
}

pub fn no_threads_left() -> Result<(), Violation> {
    let t = Instant::now();
    while service_threads() > 0 {
        if t.elapsed() > Duration::from_secs(30) {
            return Err(Violation::new(
                format!("{} threads of the service are still running 30 s after it was dropped", service_threads()),
                json!({}),
            )
            .certain());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(())
}

pub fn v(what: impl Into<String>, d: Value) -> Violation {
    Violation::new(what, d).certain()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $d:expr, $($t:tt)*) => {
        if !$c { return Err($crate::rt::v(format!($($t)*), $d)); }
    };
}

#[derive(Default)]
pub struct Events(pub Mutex<Vec<(B256, SpecId, CompilationKind, bool)>>);

pub struct Rt {
    pub focus: RtFocus,
    pub gs: GuardedStack,
}

pub fn base_config(r: &mut Rng) -> RuntimeConfig {
    let mut c = RuntimeConfig { enabled: true, ..Default::default() };
    c.tuning.jit_worker_count = *r.pick(&[1, 2, 2, 4]);
    c.tuning.jit_hot_threshold = *r.pick(&[0, 1, 2, 3, 8]);
    c.tuning.event_drain_interval = Duration::from_millis(*r.pick(&[1, 5, 20]));
    c.tuning.jit_opt_level = *r.pick(&[OptimizationLevel::None, OptimizationLevel::None, OptimizationLevel::Less, OptimizationLevel::Default]);
    c.tuning.aot_opt_level = c.tuning.jit_opt_level;
    c.tuning.compiler_recycle_threshold = *r.pick(&[0, 1, 3, 1000]);
    c.tuning.shutdown_timeout = Duration::from_secs(50);
    c.no_dedup = r.chance(20);
    c.no_dse = r.chance(20);
    c.debug_assertions = r.chance(20);
    c.single_error = r.chance(50);
    c
}

impl Rt {
    pub fn new(focus: RtFocus) -> Self {
        Self { focus, gs: GuardedStack::new(true) }
    }

    /// Many threads, all operations, programs checked as they are delivered.
    pub fn storm(&mut self, r: &mut Rng, st: &mut Stats, o: Storm) -> Result<(), Violation> {
        let its = Arc::new(items(r, o.items));
        let mut cfg = base_config(r);
        if o.tight {
            cfg.tuning.channel_capacity = *r.pick(&[1, 2, 4]);
            cfg.tuning.jit_max_pending_jobs = *r.pick(&[1, 2, 2048]);
            cfg.tuning.jit_worker_queue_capacity = *r.pick(&[1, 2, 64]);
            cfg.tuning.max_events_per_drain = *r.pick(&[1, 3, 4096]);
        }
        if o.evict {
            cfg.tuning.idle_evict_duration = Some(Duration::from_millis(*r.pick(&[0, 1, 5, 30])));
            cfg.tuning.eviction_sweep_interval = Duration::from_millis(*r.pick(&[0, 1, 5]));
            if r.chance(40) {
                cfg.tuning.resident_code_cache_bytes = *r.pick(&[1, 8192, 65536]);
            }
        }
        cfg.blocking = o.blocking;
        if o.lazy {
            cfg.enabled = false;
        }
        let store = (o.aot).then(|| Arc::new(RuntimeArtifactStore::new().unwrap()));
        cfg.store = store.clone().map(|s| s as Arc<dyn ArtifactStore>);
        let events = Arc::new(Events::default());
        let ev = events.clone();
        cfg.on_compilation = Some(Arc::new(move |e: CompilationEvent| {
            ev.0.lock().unwrap().push((e.code_hash, e.spec_id, e.kind, e.success));
        }));
        let describe = json!({"storm": format!("{o:?}"), "config": format!("{cfg:?}")});
        crate::fw::current(describe.clone());
        let b = JitBackend::new(cfg.clone()).map_err(|e| v(format!("cannot start: {e}"), describe.clone()))?;
        if o.lazy && !cfg.blocking {
            // Enabled from several threads at once below.
        }
        let w = Watch::new(o.threads);
        let fail: Arc<Mutex<Option<Violation>>> = Arc::default();
        let stop = Arc::new(AtomicBool::new(false));
        let c = Arc::new(Counts::default());
        let live_keys: Arc<Mutex<HashSet<usize>>> = Arc::default();
        let mut hs = vec![];
        for t in 0..o.threads {
            let (its, w, fail, stop, c, b) = (its.clone(), w.clone(), fail.clone(), stop.clone(), c.clone(), b.clone());
            let mut r = Rng::new(r.u64());
            let o = o.clone();
            let live = live_keys.clone();
            hs.push(
                std::thread::Builder::new()
                    .name("vh-storm".into())
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let mut gs = GuardedStack::new(true);
                        let mut held: Vec<(usize, Arc<CompiledProgram>)> = vec![];
                        if o.lazy {
                            let _ = b.set_enabled(true);
                        }
                        let mut step = |r: &mut Rng| -> Result<(), Violation> {
                            let k = r.below(its.len());
                            let it = &its[k];
                            let op = r.weighted(&o.ops);
                            w.enter(t, format!("{op:?} {}", OPS[op]));
                            match op {
                                0 => {
                                    let d = b.lookup(it.req());
                                    match d {
                                        LookupDecision::Compiled(p) => {
                                            c.hits.fetch_add(1, Relaxed);
                                            if o.blocking {
                                                c.tracked.fetch_add(1, Relaxed);
                                            }
                                            observe(it, &p, &mut gs)?;
                                            held.push((k, p));
                                        }
                                        LookupDecision::Interpret(InterpretReason::NotReady) if !o.blocking => {
                                            c.misses.fetch_add(1, Relaxed);
                                        }
                                        LookupDecision::Interpret(InterpretReason::Disabled) if o.toggles || o.lazy => {}
                                        LookupDecision::Interpret(InterpretReason::JitFailed)
                                            if o.blocking && (o.clears || o.evict || o.tight) => {}
                                        LookupDecision::Interpret(x) => {
                                            return Err(v(
                                                format!("lookup of a compilable contract answered {x:?}"),
                                                it.describe(),
                                            ));
                                        }
                                    }
                                }
                                1 => match b.lookup_blocking(it.req()) {
                                    LookupDecision::Compiled(p) => {
                                        c.blocking.fetch_add(1, Relaxed);
                                        observe(it, &p, &mut gs)?;
                                        held.push((k, p));
                                    }
                                    LookupDecision::Interpret(InterpretReason::JitFailed)
                                        if o.clears || o.evict || o.tight =>
                                    {
                                        c.fell_back.fetch_add(1, Relaxed);
                                    }
                                    LookupDecision::Interpret(x) => {
                                        return Err(v(
                                            format!("a blocking lookup of a compilable contract answered {x:?}"),
                                            it.describe(),
                                        ));
                                    }
                                },
                                2 => {
                                    live.lock().unwrap().insert(k);
                                    b.compile_jit(it.req())
                                }
                                3 => {
                                    if let Err(e) = b.compile_jit_sync(it.req()) {
                                        return Err(v(format!("a synchronous request failed: {e}"), it.describe()));
                                    }
                                    if !(o.clears || o.evict || o.tight) {
                                        match b.get_compiled(it.key.code_hash, it.key.spec_id) {
                                            Some(p) => observe(it, &p, &mut gs)?,
                                            None => return Err(v("nothing was compiled when the synchronous request returned", it.describe())),
                                        }
                                    }
                                }
                                4 => {
                                    if let Some(p) = b.get_compiled(it.key.code_hash, it.key.spec_id) {
                                        observe(it, &p, &mut gs)?;
                                        held.push((k, p));
                                    }
                                }
                                5 => {
                                    let p = b.get_compiled_tracked(it.key.code_hash, it.key.spec_id);
                                    c.tracked_calls.fetch_add(1, Relaxed);
                                    if let Some(p) = p {
                                        observe(it, &p, &mut gs)?;
                                    }
                                }
                                6 => b.prepare_aot(it.aot()),
                                7 => b.clear_resident(),
                                8 => {
                                    if r.chance(50) {
                                        b.clear_persisted()
                                    } else {
                                        b.clear_all()
                                    }
                                }
                                9 => {
                                    b.pause();
                                    let p = b.is_paused();
                                    b.resume();
                                    if !p {
                                        return Err(v("not paused between pause and resume", json!({})));
                                    }
                                }
                                10 => {
                                    let _ = b.set_enabled(r.chance(60));
                                }
                                11 => {
                                    let s = b.stats();
                                    if s.compilations_succeeded + s.compilations_failed > s.compilations_dispatched + 64 {
                                        return Err(v(format!("more results than jobs: {s:?}"), json!({})));
                                    }
                                }
                                12 => {
                                    let b2 = b.clone();
                                    drop(b2);
                                }
                                _ => {
                                    // Programs held across clears and evictions stay callable.
                                    if !held.is_empty() {
                                        let i = r.below(held.len());
                                        let (k, p) = &held[i];
                                        c.held_runs.fetch_add(1, Relaxed);
                                        observe(&its[*k], p, &mut gs)?;
                                        if r.chance(50) {
                                            held.swap_remove(i);
                                        }
                                    }
                                }
                            }
                            w.leave(t);
                            c.ops.fetch_add(1, Relaxed);
                            Ok(())
                        };
                        for n in 0..o.steps {
                            if stop.load(Relaxed) {
                                break;
                            }
                            if let Err(e) = step(&mut r) {
                                w.leave(t);
                                fail.lock().unwrap().get_or_insert(e);
                                stop.store(true, Relaxed);
                                break;
                            }
                            if n % 16 == 0 && r.chance(20) {
                                std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                            }
                        }
                        w.leave(t);
                        drop(b);
                        held
                    })
                    .unwrap(),
            );
        }
        let mut helds = vec![];
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            if let Some(x) = w.stuck() {
                return Err(v(format!("an operation never returned: {x}"), describe));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        for h in hs {
            match h.join() {
                Ok(x) => helds.extend(x),
                Err(_) => return Err(v("a storm thread panicked", describe)),
            }
        }
        if let Some(mut e) = fail.lock().unwrap().take() {
            e.detail = json!({"at": e.detail, "scenario": describe});
            return Err(e);
        }
        st.count("rt:ops", c.ops.load(Relaxed));
        st.count("rt:hits", c.hits.load(Relaxed));
        st.count("rt:misses", c.misses.load(Relaxed));
        st.count("rt:blocking_compiled", c.blocking.load(Relaxed));
        st.count("rt:blocking_fell_back", c.fell_back.load(Relaxed));
        st.count("rt:held_runs", c.held_runs.load(Relaxed));
        st.evals += c.ops.load(Relaxed);

        if o.lazy || o.toggles {
            let _ = b.set_enabled(true);
        }
        let s = quiesce(&b).map_err(|mut e| {
            e.detail = json!({"scenario": describe, "at": e.detail});
            e
        })?;
        st.count("rt:compilations", s.compilations_succeeded);
        st.count("rt:evictions", s.evictions);
        self.accounts(&s, &c, &events, &o, &describe)?;
        if !o.evict {
            ensure!(s.evictions == 0, describe, "{} programs were evicted although none was idle and no budget was exceeded", s.evictions);
            let n = its.iter().filter(|i| b.get_compiled(i.key.code_hash, i.key.spec_id).is_some()).count() as u64;
            ensure!(
                s.resident_entries == n,
                describe,
                "the service reports {} resident programs, {n} can be looked up",
                s.resident_entries
            );
        }
        if !(o.evict || o.clears || o.tight) && self.focus != RtFocus::Live {
            // Everything ever requested explicitly is there.
            for k in live_keys.lock().unwrap().iter() {
                let it = &its[*k];
                match b.get_compiled(it.key.code_hash, it.key.spec_id) {
                    Some(p) => observe(it, &p, &mut self.gs)?,
                    None => return Err(v("a requested compilation was lost", json!({"contract": it.describe(), "scenario": describe}))),
                }
            }
        }
        ends(b, "after a storm")?;
        no_threads_left()?;
        // Still callable after the service is gone.
        for (k, p) in &helds {
            observe(&its[*k], p, &mut self.gs)?;
            st.count("rt:runs_after_shutdown", 1);
        }
        let sig = hash_bytes(hash_bytes(0, format!("{o:?}").as_bytes()), format!("{s:?}").as_bytes());
        st.nontrivial(sig);
        st.sample(|| json!({"scenario": describe, "stats_at_rest": format!("{s:?}"), "operations": c.ops.load(Relaxed), "hits": c.hits.load(Relaxed)}));
        Ok(())
    }

    fn accounts(
        &self,
        s: &RuntimeStatsSnapshot,
        c: &Counts,
        events: &Events,
        o: &Storm,
        d: &Value,
    ) -> Result<(), Violation> {
        let ev = events.0.lock().unwrap();
        let ok = ev.iter().filter(|e| e.3).count() as u64;
        ensure!(
            s.compilations_dispatched == s.compilations_succeeded + s.compilations_failed,
            d.clone(),
            "at rest, {} jobs were dispatched but {} + {} ended",
            s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed
        );
        ensure!(
            ev.len() as u64 <= s.compilations_dispatched,
            d.clone(),
            "{} compilation events for {} jobs",
            ev.len(),
            s.compilations_dispatched
        );
        if !o.clears {
            ensure!(
                ev.len() as u64 == s.compilations_dispatched,
                d.clone(),
                "{} compilation events for {} jobs",
                ev.len(),
                s.compilations_dispatched
            );
            if !o.aot {
                ensure!(ok == s.compilations_succeeded, d.clone(), "{ok} success events, {} successes counted", s.compilations_succeeded);
            }
            ensure!(
                s.resident_entries + s.evictions <= s.compilations_succeeded + if o.aot { u64::MAX / 2 } else { 0 },
                d.clone(),
                "{} resident + {} evicted programs from {} successful compilations",
                s.resident_entries, s.evictions, s.compilations_succeeded
            );
            if !o.aot {
                ensure!(
                    s.resident_entries + s.evictions == s.compilations_succeeded || o.evict,
                    d.clone(),
                    "{} resident programs from {} successful compilations",
                    s.resident_entries, s.compilations_succeeded
                );
            }
        }
        ensure!(s.compilations_failed == 0 || o.aot, d.clone(), "{} compilations failed", s.compilations_failed);
        // Lookups: every one is a hit, a miss or a dropped event.
        if !o.blocking && o.ops[1] == 0 {
            let n = c.hits.load(Relaxed) + c.misses.load(Relaxed);
            let seen = s.lookup_hits + s.lookup_misses + s.events_dropped - c.tracked_calls.load(Relaxed).min(s.lookup_hits + s.lookup_misses);
            if o.clears {
                ensure!(seen <= n, d.clone(), "{seen} lookups accounted for, {n} made");
            } else {
                ensure!(seen == n, d.clone(), "{seen} lookups accounted for, {n} made");
                if o.ops[5] == 0 {
                    ensure!(s.lookup_hits <= c.hits.load(Relaxed), d.clone(), "more hits counted than lookups that hit");
                    ensure!(s.lookup_misses <= c.misses.load(Relaxed), d.clone(), "more misses counted than lookups that missed");
                }
            }
        }
        Ok(())
    }
}

const OPS: [&str; 14] = [
    "lookup", "lookup_blocking", "compile_jit", "compile_jit_sync", "get_compiled", "get_compiled_tracked",
    "prepare_aot", "clear_resident", "clear_persisted/all", "pause/resume", "set_enabled", "stats", "clone/drop", "run held",
];

#[derive(Clone, Debug)]
pub struct Storm {
    items: usize,
    threads: usize,
    steps: usize,
    ops: [u32; 14],
    clears: bool,
    evict: bool,
    tight: bool,
    toggles: bool,
    blocking: bool,
    aot: bool,
    lazy: bool,
}

#[derive(Default)]
struct Counts {
    ops: AtomicU64,
    hits: AtomicU64,
    misses: AtomicU64,
    tracked: AtomicU64,
    tracked_calls: AtomicU64,
    blocking: AtomicU64,
    fell_back: AtomicU64,
    held_runs: AtomicU64,
}

impl Storm {
    pub fn random(r: &mut Rng, f: RtFocus) -> Self {
        let clears = r.chance(if f == RtFocus::Stats { 35 } else { 50 });
        let evict = r.chance(35);
        let tight = r.chance(if f == RtFocus::Live { 70 } else { 30 });
        let toggles = r.chance(20);
        let lazy = r.chance(30);
        let blocking = !lazy && r.chance(12);
        let aot = f == RtFocus::Aot || r.chance(6);
        let mut ops = [40, 8, 6, 4, 10, 4, 0, 0, 0, 2, 0, 3, 2, 12];
        if f == RtFocus::Stats && r.chance(60) {
            ops[1] = 0;
        }
        if clears {
            ops[7] = *r.pick(&[1, 3, 10]);
            ops[8] = 1;
        }
        if toggles {
            ops[10] = 3;
        }
        if aot {
            ops[6] = 3;
        }
        if f == RtFocus::Live && r.chance(30) {
            ops[3] = 30;
            ops[1] = 30;
        }
        Self {
            items: r.range(2, if aot { 4 } else { 10 }),
            threads: r.range(1, 6),
            steps: *r.pick(&[20, 60, 200, 400]),
            ops,
            clears,
            evict,
            tight,
            toggles,
            blocking,
            aot,
            lazy,
        }
    }
}

impl Check for Rt {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let mut r = Rng::new(seed);
        crate::rt2::case(self, index, &mut r, st)
    }
}
