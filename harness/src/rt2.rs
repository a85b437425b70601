//! Scenarios of the runtime checks: scripted histories against an exact model, policy, liveness,
//! persisted artifacts, out-of-process compilation.
use crate::{
    ensure,
    fw::{Stats, Violation},
    rng::{Rng, hash_bytes},
    rt::*,
};
use revm_context_interface::cfg::GasParams;
use revm_primitives::{B256, Bytes, hardfork::SpecId, keccak256};
use revmc::{
    OptimizationLevel, eyre,
    runtime::{
        ArtifactKey, ArtifactManifest, ArtifactStore, BackendSelection, CompilationEvent,
        CompilationKind, CompiledProgram, InterpretReason, JitBackend, JitMode, LookupDecision,
        LookupRequest, ProgramKind, RuntimeArtifactStore, RuntimeCacheKey, RuntimeConfig,
        StoredArtifact,
    },
};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    path::PathBuf,
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering::*},
    },
    time::{Duration, Instant},
};

pub fn case(rt: &mut Rt, index: u64, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let pick = index as usize;
    type F = fn(&mut Rt, &mut Rng, &mut Stats) -> Result<(), Violation>;
    let (names, fs): (Vec<&str>, Vec<F>) = match rt.focus {
        RtFocus::Right => vec![
            ("storm", storm as F),
            ("script", script),
            ("stale", stale),
            ("recompile", recompile),
            ("storm", storm),
        ],
        RtFocus::Live => vec![
            ("storm", storm as F),
            ("unstarted", unstarted),
            ("gate", gate),
            ("drop-in-flight", drop_in_flight),
            ("waiters", waiters),
            ("failing-start", failing_start),
            ("broken-helper", broken_helper),
            ("faults", store_faults),
            ("no-store", no_store),
            ("storm", storm),
        ],
        RtFocus::Policy => vec![
            ("script", script as F),
            ("threshold", threshold),
            ("blocking", blocking),
            ("limits", limits),
            ("idle", idle),
            ("warm", warm),
            ("budget", budget),
            ("pending-cap", pending_cap),
            ("env", env_overrides),
            ("script", script),
        ],
        RtFocus::Stats => vec![
            ("script", script as F),
            ("storm", storm),
            ("broken-helper", broken_helper),
            ("faults", store_faults),
            ("no-store", no_store),
            ("storm", storm),
            ("script", script),
            ("gate", gate),
            ("evictions", evictions),
            ("budget", budget),
        ],
        RtFocus::Aot => vec![
            ("store", store_model as F),
            ("preload", preload),
            ("faults", store_faults),
            ("overwrite", overwrite),
            ("store-threads", store_threads),
            ("shared", shared_store),
            ("storm", storm),
        ],
        RtFocus::Helper => vec![
            ("helper", helper as F),
            ("helper-kill", helper_kill),
            ("helper-pause", helper_pause),
            ("helper-limits", helper_limits),
            ("helper-settings", helper_settings),
        ],
    }
    .into_iter()
    .unzip();
    let i = pick % fs.len();
    crate::fw::set_tag(names[i]);
    crate::fw::current(json!({"scenario": names[i]}));
    st.count(format!("scenario:{}", names[i]), 1);
    let t = Instant::now();
    let x = fs[i](rt, r, st);
    st.max(&format!("ms:{}", names[i]), t.elapsed().as_millis() as u64);
    x.map_err(|mut e| {
        e.what = format!("[{}] {}", names[i], e.what);
        e
    })
}

fn storm(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let o = Storm::random(r, rt.focus);
    rt.storm(r, st, o)
}

fn start(cfg: &RuntimeConfig) -> Result<JitBackend, Violation> {
    JitBackend::new(cfg.clone()).map_err(|e| v(format!("the service cannot start: {e}"), json!({"config": format!("{cfg:?}")})))
}

type Ev = (B256, SpecId, CompilationKind, bool);

fn record(cfg: &mut RuntimeConfig) -> Arc<Events> {
    let events = Arc::new(Events::default());
    let ev = events.clone();
    cfg.on_compilation = Some(Arc::new(move |e: CompilationEvent| {
        ev.0.lock().unwrap().push((e.code_hash, e.spec_id, e.kind, e.success));
    }));
    events
}

/// No eviction of any kind.
fn keep_all(cfg: &mut RuntimeConfig) {
    cfg.tuning.idle_evict_duration = None;
    cfg.tuning.resident_code_cache_bytes = 0;
}

// ---------------------------------------------------------------- scripted histories

/// One thread, a random history; after every operation the service comes to rest and its answers,
/// its counters and its compilation events must be exactly those of a sequential model.
fn script(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 6);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let t = *r.pick(&[0usize, 1, 2, 3, 4, 8, 17]);
    cfg.tuning.jit_hot_threshold = t;
    cfg.enabled = r.chance(70);
    cfg.aot = r.chance(12);
    let mut lens: Vec<usize> = its.iter().map(|i| i.code.len()).collect();
    lens.sort();
    // The longest contract is just out of reach, or just within it.
    cfg.tuning.jit_max_bytecode_len = match r.below(4) {
        0 => 0,
        1 => lens[5] - 1,
        2 => lens[5],
        _ => 24 * 1024,
    };
    let with_store = cfg.aot || r.chance(25);
    let store = with_store.then(|| Arc::new(RuntimeArtifactStore::new().unwrap()));
    cfg.store = store.clone().map(|s| s as Arc<dyn ArtifactStore>);
    let events = record(&mut cfg);
    let b = start(&cfg)?;
    let mut enabled = cfg.enabled;
    let mut started = cfg.enabled;
    let max = cfg.tuning.jit_max_bytecode_len;
    let eligible = |i: usize| !its[i].code.is_empty() && (max == 0 || its[i].code.len() <= max);

    let mut resident: BTreeMap<usize, ProgramKind> = BTreeMap::new();
    let mut persisted: HashSet<usize> = HashSet::new();
    let mut hot: HashMap<usize, usize> = HashMap::new();
    let (mut hits, mut misses, mut jobs) = (0u64, 0u64, 0u64);
    let mut exp_ev: Vec<Ev> = vec![];
    let mut log: Vec<String> = vec![];
    let mut held: Vec<(usize, Arc<CompiledProgram>)> = vec![];
    let jit_kind = if cfg.aot { CompilationKind::Aot } else { CompilationKind::Jit };

    // What an admitted request does.
    macro_rules! admit {
        ($k:expr, $kind:expr, $n:expr) => {{
            let (k, kind, n): (usize, CompilationKind, usize) = ($k, $kind, $n);
            if !resident.contains_key(&k) && eligible(k) {
                if kind == CompilationKind::Aot && persisted.contains(&k) {
                    resident.insert(k, ProgramKind::Aot);
                } else {
                    let go = if n == usize::MAX {
                        true
                    } else {
                        let h = hot.entry(k).or_insert(0);
                        *h += n;
                        *h >= t.max(1)
                    };
                    if go {
                        hot.remove(&k);
                        jobs += 1;
                        exp_ev.push((its[k].key.code_hash, its[k].key.spec_id, kind, true));
                        if kind == CompilationKind::Aot {
                            persisted.insert(k);
                            resident.insert(k, ProgramKind::Aot);
                        } else {
                            resident.insert(k, ProgramKind::Jit);
                        }
                    }
                }
            }
        }};
    }

    let steps = r.range(10, 60);
    for _ in 0..steps {
        let k = r.below(its.len());
        let it = &its[k];
        let op = r.weighted(&[30, 12, 6, 5, 6, 5, if with_store { 4 } else { 0 }, 5, if with_store { 4 } else { 1 }, 5, 6, 12]);
        let detail = |log: &Vec<String>| {
            json!({"config": format!("{cfg:?}"), "contract": it.describe(), "history": log, "codes": its.iter().map(|i| i.describe()).collect::<Vec<_>>()})
        };
        let check_kind = |p: &CompiledProgram, log: &Vec<String>, resident: &BTreeMap<usize, ProgramKind>| -> Result<(), Violation> {
            let want = resident[&k];
            ensure!(
                std::mem::discriminant(&p.kind) == std::mem::discriminant(&want),
                detail(log),
                "program of kind {:?}, expected {want:?}",
                p.kind
            );
            Ok(())
        };
        match op {
            // A burst of lookups of one contract.
            0 | 11 => {
                let n = if op == 11 { t.max(1) - hot.get(&k).copied().unwrap_or(0).min(t.max(1) - 1) } else { r.range(1, 3) };
                log.push(format!("lookup #{k} x{n}"));
                let mut missed = 0;
                for _ in 0..n {
                    let d = b.lookup(it.req());
                    if !enabled {
                        ensure!(matches!(d, LookupDecision::Interpret(InterpretReason::Disabled)), detail(&log), "disabled service answered {d:?}");
                        continue;
                    }
                    if !eligible(k) {
                        ensure!(matches!(d, LookupDecision::Interpret(InterpretReason::Ineligible)), detail(&log), "ineligible contract: {d:?}");
                        continue;
                    }
                    match d {
                        LookupDecision::Compiled(p) => {
                            let may = resident.contains_key(&k)
                                || missed > 0 && (hot.get(&k).copied().unwrap_or(0) + missed >= t.max(1) || cfg.aot && persisted.contains(&k));
                            ensure!(may, detail(&log), "a program appeared that nothing asked for");
                            observe(it, &p, &mut rt.gs)?;
                            held.push((k, p));
                            hits += 1;
                        }
                        LookupDecision::Interpret(InterpretReason::NotReady) => {
                            ensure!(!resident.contains_key(&k), detail(&log), "a compiled contract is not found");
                            missed += 1;
                            misses += 1;
                        }
                        d => return Err(v(format!("lookup answered {d:?}"), detail(&log))),
                    }
                }
                if missed > 0 {
                    admit!(k, jit_kind, missed);
                }
            }
            1 => {
                log.push(format!("lookup_blocking #{k}"));
                started |= eligible(k);
                match blocking_lookup(&b, it.req())? {
                    LookupDecision::Compiled(p) => {
                        ensure!(eligible(k), detail(&log), "an ineligible contract was compiled");
                        hits += 1;
                        if !resident.contains_key(&k) {
                            misses += 1;
                            admit!(k, jit_kind, usize::MAX);
                        }
                        check_kind(&p, &log, &resident)?;
                        observe(it, &p, &mut rt.gs)?;
                        held.push((k, p));
                    }
                    d => ensure!(
                        !eligible(k) && matches!(d, LookupDecision::Interpret(InterpretReason::Ineligible)),
                        detail(&log),
                        "a blocking lookup answered {d:?}"
                    ),
                }
            }
            2 => {
                log.push(format!("compile_jit #{k}"));
                started = true;
                b.compile_jit(it.req());
                admit!(k, jit_kind, usize::MAX);
            }
            3 => {
                log.push(format!("compile_jit_sync #{k}"));
                started = true;
                let e = sync_compile(&b, it.req())?;
                ensure!(e.is_ok(), detail(&log), "a synchronous request failed: {e:?}");
                admit!(k, jit_kind, usize::MAX);
                let p = b.get_compiled(it.key.code_hash, it.key.spec_id);
                ensure!(p.is_some() == eligible(k), detail(&log), "after a synchronous request: resident = {}, eligible = {}", p.is_some(), eligible(k));
            }
            4 => {
                log.push(format!("get_compiled #{k}"));
                let p = b.get_compiled(it.key.code_hash, it.key.spec_id);
                ensure!(p.is_some() == resident.contains_key(&k), detail(&log), "get_compiled found a program: {}, the history says {}", p.is_some(), resident.contains_key(&k));
                if let Some(p) = p {
                    check_kind(&p, &log, &resident)?;
                    observe(it, &p, &mut rt.gs)?;
                }
            }
            5 => {
                log.push(format!("get_compiled_tracked #{k}"));
                let p = b.get_compiled_tracked(it.key.code_hash, it.key.spec_id);
                ensure!(p.is_some() == resident.contains_key(&k), detail(&log), "get_compiled_tracked disagrees with the history");
                if p.is_some() { hits += 1 } else { misses += 1 }
            }
            6 => {
                log.push(format!("prepare_aot #{k}"));
                started = true;
                b.prepare_aot(it.aot());
                admit!(k, CompilationKind::Aot, usize::MAX);
            }
            7 => {
                log.push("clear_resident".into());
                started = true;
                b.clear_resident();
                resident.clear();
                hot.clear();
            }
            8 => {
                started = true;
                if r.chance(50) {
                    log.push("clear_persisted".into());
                    b.clear_persisted();
                } else {
                    log.push("clear_all".into());
                    b.clear_all();
                    resident.clear();
                    hot.clear();
                }
                persisted.clear();
            }
            9 => {
                enabled = r.chance(70);
                log.push(format!("set_enabled {enabled}"));
                started |= enabled;
                let e = b.set_enabled(enabled);
                ensure!(e.is_ok(), detail(&log), "set_enabled failed: {e:?}");
                ensure!(b.enabled() == enabled, detail(&log), "enabled() is not what was set");
            }
            _ => {
                log.push("run held".into());
                for (k, p) in &held {
                    observe(&its[*k], p, &mut rt.gs)?;
                }
                if r.chance(30) {
                    held.clear();
                }
            }
        }
        if !started {
            let s = b.stats();
            ensure!(
                s.lookup_hits == hits && s.lookup_misses == misses && s.compilations_dispatched == 0,
                detail(&log),
                "a service that was never started counts {s:?}"
            );
            ensure!(!has_threads(), detail(&log), "a service that was never started has threads");
            continue;
        }
        let s = quiesce(&b)?;
        let got = (s.lookup_hits, s.lookup_misses, s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed, s.resident_entries, s.evictions, s.events_dropped, s.pending_jobs);
        let want = (hits, misses, jobs, jobs, 0, resident.len() as u64, 0, 0, 0);
        ensure!(
            got == want,
            detail(&log),
            "after this history (hits, misses, dispatched, succeeded, failed, resident, evictions, events dropped, pending) are {got:?}, not {want:?}"
        );
        let ev = events.0.lock().unwrap().clone();
        ensure!(ev == exp_ev, detail(&log), "compilation events {ev:?}, not {exp_ev:?}");
        for (i, it) in its.iter().enumerate() {
            ensure!(
                b.get_compiled(it.key.code_hash, it.key.spec_id).is_some() == resident.contains_key(&i),
                detail(&log),
                "contract #{i} resident: {}, the history says {}",
                !resident.contains_key(&i),
                resident.contains_key(&i)
            );
        }
        if let Some(s) = &store {
            ensure!(s.len() == persisted.len(), detail(&log), "{} artifacts persisted, the history says {}", s.len(), persisted.len());
        }
        st.evals += 1;
        st.count("script:steps", 1);
    }
    ends(b, "after a scripted history")?;
    no_threads_left()?;
    for (k, p) in &held {
        observe(&its[*k], p, &mut rt.gs)?;
    }
    st.count("script:compilations", jobs);
    st.nontrivial(hash_bytes(0, format!("{log:?}{t}").as_bytes()));
    st.sample(|| json!({"scenario": "scripted history", "threshold": t, "history": log, "hits": hits, "misses": misses, "jobs": jobs}));
    Ok(())
}

/// Requests followed by a clear leave nothing behind, however far the compilations got.
fn stale(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 8);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let t = *r.pick(&[1usize, 2, 4]);
    cfg.tuning.jit_hot_threshold = t;
    cfg.tuning.event_drain_interval = Duration::from_millis(*r.pick(&[1, 50]));
    let store = r.chance(60);
    if store {
        cfg.store = Some(Arc::new(RuntimeArtifactStore::new().unwrap()));
        cfg.aot = r.chance(30);
    }
    let b = start(&cfg)?;
    for round in 0..r.range(1, 4) {
        let d = json!({"config": format!("{cfg:?}"), "round": round});
        for it in &its {
            match r.below(if store { 5 } else { 3 }) {
                0 => b.compile_jit(it.req()),
                3 | 4 => b.prepare_aot(it.aot()),
                1 => {
                    for _ in 0..t {
                        let _ = b.lookup(it.req());
                    }
                }
                _ => {
                    for _ in 0..t - 1 {
                        let _ = b.lookup(it.req());
                    }
                }
            }
        }
        if r.chance(50) {
            std::thread::sleep(Duration::from_micros(*r.pick(&[10, 300, 2000, 8000])));
        }
        if r.chance(80) { b.clear_resident() } else { b.clear_all() }
        let s = quiesce(&b)?;
        ensure!(s.resident_entries == 0, d, "{} programs are resident after a clear; nothing was requested since", s.resident_entries);
        std::thread::sleep(Duration::from_millis(r.below(20) as u64));
        for it in &its {
            ensure!(b.get_compiled(it.key.code_hash, it.key.spec_id).is_none(), d, "a program requested before the clear appeared after it");
        }
        st.count("stale:clears", 1);
        // Misses from before the clear do not count towards promotion.
        if t > 1 {
            let before = quiesce(&b)?.compilations_dispatched;
            for it in &its {
                for _ in 0..t - 1 {
                    let _ = b.lookup(it.req());
                }
            }
            let after = quiesce(&b)?.compilations_dispatched;
            ensure!(before == after, d, "misses from before a clear counted towards promotion");
        }
        // The service works as before.
        let k = r.below(its.len());
        match blocking_lookup(&b, its[k].req())? {
            LookupDecision::Compiled(p) => observe(&its[k], &p, &mut rt.gs)?,
            x => return Err(v(format!("after a clear, a blocking lookup answered {x:?}"), d)),
        }
        b.clear_resident();
        quiesce(&b)?;
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "after clears")?;
    no_threads_left()
}

/// Programs in use do not keep the contract from being compiled again.
fn recompile(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let n = r.range(1, 4);
    let its = items(r, n);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    if r.chance(25) {
        cfg.jit_mode = JitMode::OutOfProcess;
    }
    let b = start(&cfg)?;
    let mut held = vec![];
    for _ in 0..r.range(2, 6) {
        for (k, it) in its.iter().enumerate() {
            match blocking_lookup(&b, it.req())? {
                LookupDecision::Compiled(p) => {
                    observe(it, &p, &mut rt.gs)?;
                    held.push((k, p));
                }
                x => {
                    return Err(v(
                        format!("a contract whose earlier program is still in use could not be compiled again: {x:?}"),
                        json!({"config": format!("{cfg:?}"), "contract": it.describe()}),
                    ));
                }
            }
        }
        for (k, p) in &held {
            observe(&its[*k], p, &mut rt.gs)?;
            st.count("rt:held_runs", 1);
        }
        if r.chance(30) && !held.is_empty() {
            held.swap_remove(r.below(held.len()));
        }
        b.clear_resident();
    }
    ends(b, "with programs in use")?;
    no_threads_left()?;
    for (k, p) in &held {
        observe(&its[*k], p, &mut rt.gs)?;
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    Ok(())
}

// ---------------------------------------------------------------- policy

fn threshold(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 5);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let t = *r.pick(&[0usize, 1, 2, 3, 5, 8, 40]);
    cfg.tuning.jit_hot_threshold = t;
    cfg.tuning.max_events_per_drain = *r.pick(&[1, 7, 4096]);
    let need = t.max(1);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    // One miss short, for every contract, interleaved and from several threads.
    let its = Arc::new(its);
    let hs: Vec<_> = (0..its.len())
        .map(|k| {
            let (b, its) = (b.clone(), its.clone());
            std::thread::spawn(move || {
                for _ in 0..need - 1 {
                    let _ = b.lookup(its[k].req());
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let s = quiesce(&b)?;
    ensure!(s.events_dropped == 0, d, "lookup events were dropped from a queue of {}", cfg.tuning.channel_capacity);
    ensure!(s.compilations_dispatched == 0, d, "{} compilations after {} misses each; the threshold is {t}", s.compilations_dispatched, need - 1);
    ensure!(s.lookup_misses == (its.len() * (need - 1)) as u64, d, "{} misses counted, {} made", s.lookup_misses, its.len() * (need - 1));
    let k = r.below(its.len());
    let x = b.lookup(its[k].req());
    ensure!(matches!(x, LookupDecision::Interpret(InterpretReason::NotReady)), d, "lookup answered {x:?} before anything was compiled");
    let s = quiesce(&b)?;
    ensure!(s.compilations_dispatched == 1 && s.resident_entries == 1, d, "after {need} misses (threshold {t}) of one contract: {} compilations, {} resident", s.compilations_dispatched, s.resident_entries);
    match b.lookup(its[k].req()) {
        LookupDecision::Compiled(p) => observe(&its[k], &p, &mut rt.gs)?,
        x => return Err(v(format!("a hot contract is answered {x:?}"), d)),
    }
    st.evals += 1;
    st.count("threshold:exact", 1);
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// In blocking mode the first lookup already answers with the program.
fn blocking(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 4);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.blocking = true;
    cfg.enabled = r.chance(50);
    cfg.tuning.jit_hot_threshold = *r.pick(&[0usize, 1, 5, 1000]);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    ensure!(b.enabled(), d, "a blocking service starts disabled");
    let mut known = std::collections::HashSet::new();
    for _ in 0..r.range(3, 9) {
        let k = r.below(its.len());
        match r.below(8) {
            0 => {
                b.set_enabled(false).map_err(|e| v(format!("set_enabled(false): {e}"), d.clone()))?;
                let x = b.lookup(its[k].req());
                ensure!(matches!(x, LookupDecision::Interpret(InterpretReason::Disabled)), d, "a disabled service answered {x:?}");
                b.set_enabled(true).map_err(|e| v(format!("set_enabled(true): {e}"), d.clone()))?;
            }
            1 => {
                let mut q = its[k].req();
                q.code = Bytes::new();
                let x = b.lookup(q);
                ensure!(matches!(x, LookupDecision::Interpret(InterpretReason::Ineligible)), d, "empty code was answered {x:?}");
            }
            _ => match b.lookup(its[k].req()) {
                LookupDecision::Compiled(p) => {
                    known.insert(its[k].req().key);
                    observe(&its[k], &p, &mut rt.gs)?
                }
                x => return Err(v(format!("a lookup in blocking mode answered {x:?}"), d)),
            },
        }
    }
    let s = quiesce(&b)?;
    ensure!(s.compilations_dispatched == known.len() as u64, d, "{} compilations for {} contracts looked up in blocking mode", s.compilations_dispatched, known.len());
    st.evals += 1;
    st.count("blocking:lookups", 1);
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

fn limits(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.tuning.jit_opt_level = OptimizationLevel::None;
    cfg.tuning.jit_hot_threshold = 1;
    let max = *r.pick(&[0usize, 1, 5, 100, 24 * 1024]);
    cfg.tuning.jit_max_bytecode_len = max;
    let store = r.chance(30).then(|| Arc::new(RuntimeArtifactStore::new().unwrap()));
    cfg.store = store.clone().map(|s| s as Arc<dyn ArtifactStore>);
    let b = start(&cfg)?;
    let mut jobs = 0;
    for len in [0, 1, 4, 5, 6, 99, 100, 101, 24 * 1024 - 1, 24 * 1024, 24 * 1024 + 1, 30_000] {
        if len > 200 && max < 200 && r.chance(70) {
            continue;
        }
        let mut code = vec![0x5b; len];
        if let Some(c) = code.last_mut() {
            *c = 0;
        }
        let code = Bytes::from(code);
        let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: *r.pick(&[SpecId::CANCUN, SpecId::FRONTIER]) };
        let req = LookupRequest { key, code: code.clone() };
        let eligible = len > 0 && (max == 0 || len <= max);
        let d = json!({"length": len, "limit": max, "config": format!("{cfg:?}")});
        ensure!(cfg.tuning.should_compile(&code) == eligible, d, "should_compile({len} bytes) with limit {max}");
        let how = r.below(5);
        match how {
            0 => {
                let x = b.lookup(req.clone());
                ensure!(
                    matches!(x, LookupDecision::Interpret(InterpretReason::NotReady)) == eligible
                        && matches!(x, LookupDecision::Interpret(InterpretReason::Ineligible)) != eligible,
                    d,
                    "lookup of {len} bytes answered {x:?}"
                );
            }
            1 => {
                let x = blocking_lookup(&b, req.clone())?;
                ensure!(
                    matches!(x, LookupDecision::Compiled(_)) == eligible
                        && matches!(x, LookupDecision::Interpret(InterpretReason::Ineligible)) != eligible,
                    d,
                    "a blocking lookup of {len} bytes answered {x:?}"
                );
            }
            2 => b.compile_jit(req.clone()),
            3 => ensure!(sync_compile(&b, req.clone())?.is_ok(), d, "a synchronous request failed"),
            _ if store.is_some() && len < 2000 => b.prepare_aot(revmc::runtime::AotRequest { code_hash: key.code_hash, code: code.clone(), spec_id: key.spec_id }),
            _ => b.compile_jit(req.clone()),
        }
        jobs += eligible as u64;
        let s = quiesce(&b)?;
        ensure!(
            b.get_compiled(key.code_hash, key.spec_id).is_some() == eligible && s.compilations_dispatched == jobs,
            d,
            "{len} bytes with limit {max}, request kind {how}: compiled = {}, should be {eligible}; {} jobs, should be {jobs}",
            b.get_compiled(key.code_hash, key.spec_id).is_some(),
            s.compilations_dispatched
        );
        st.count("limits:lengths", 1);
    }
    let _ = rt;
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// Programs in use stay, unused ones go.
fn idle(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 4);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let idle = Duration::from_millis(*r.pick(&[300, 500]));
    cfg.tuning.jit_opt_level = OptimizationLevel::None;
    cfg.tuning.jit_hot_threshold = 1;
    cfg.tuning.idle_evict_duration = Some(idle);
    cfg.tuning.eviction_sweep_interval = Duration::from_millis(*r.pick(&[1, 20]));
    cfg.tuning.event_drain_interval = Duration::from_millis(*r.pick(&[1, 10]));
    let preloaded = r.chance(25);
    if preloaded {
        // The unused contract comes from the artifact store.
        let store = Arc::new(RuntimeArtifactStore::new().unwrap());
        let mut c2 = cfg.clone();
        c2.store = Some(store.clone());
        c2.tuning.idle_evict_duration = None;
        let b = start(&c2)?;
        b.prepare_aot(its[3].aot());
        quiesce(&b)?;
        ends(b, "")?;
        cfg.store = Some(store);
    }
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}"), "preloaded": preloaded});
    for (k, it) in its.iter().enumerate() {
        if preloaded && k == 3 {
            ensure!(b.get_compiled(it.key.code_hash, it.key.spec_id).is_some(), d, "the persisted program was not preloaded");
            continue;
        }
        let _ = sync_compile(&b, it.req())?;
    }
    let t = Instant::now();
    let mut last = Instant::now();
    let mut gap = Duration::ZERO;
    let mut gone = None;
    while t.elapsed() < idle * 3 {
        let x = b.lookup(its[0].req());
        gap = gap.max(last.elapsed());
        last = Instant::now();
        if !matches!(x, LookupDecision::Compiled(_)) && gone.is_none() && b.get_compiled(its[0].key.code_hash, its[0].key.spec_id).is_none() {
            gone = Some(t.elapsed());
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let s = b.stats();
    if gap < idle / 4 {
        // Not a certain verdict by itself: a stalled machine can make it look idle.
        if let Some(x) = gone {
            return Err(Violation::new(
                format!("a program looked up every few milliseconds was evicted as idle after {x:?} (limit {idle:?}, longest gap {gap:?})"),
                d,
            ));
        }
    } else {
        st.count("idle:stalled", 1);
    }
    // Unused programs are gone, eventually.
    let t = Instant::now();
    loop {
        let left = its[1..].iter().filter(|i| b.get_compiled(i.key.code_hash, i.key.spec_id).is_some()).count();
        if left == 0 {
            break;
        }
        ensure!(t.elapsed() < Duration::from_secs(30), d, "{left} programs unused for 30 s are still resident; the limit is {idle:?}: {s:?}");
        std::thread::sleep(Duration::from_millis(5));
    }
    // And can be compiled again.
    match blocking_lookup(&b, its[2].req())? {
        LookupDecision::Compiled(p) => observe(&its[2], &p, &mut rt.gs)?,
        x => return Err(v(format!("an evicted contract is answered {x:?}"), d)),
    }
    st.evals += 1;
    st.count("idle:kept_and_evicted", 1);
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// Every eviction is counted, once; what was cleared away is not evicted.
fn evictions(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 6);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let idle = Duration::from_millis(*r.pick(&[300, 600]));
    cfg.tuning.jit_opt_level = OptimizationLevel::None;
    cfg.tuning.jit_hot_threshold = 1000;
    cfg.tuning.idle_evict_duration = Some(idle);
    cfg.tuning.eviction_sweep_interval = Duration::from_millis(*r.pick(&[1, 10]));
    cfg.tuning.event_drain_interval = Duration::from_millis(*r.pick(&[1, 10]));
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let mut expected = 0;
    let mut certain = true;
    for round in 0..r.range(1, 3) {
        // Nothing of this round is idle before `t + idle`.
        let t = Instant::now();
        let n = r.range(1, 6);
        let first = r.below(its.len());
        let asked: Vec<&Arc<Item>> = (0..n).map(|k| &its[(first + k) % its.len()]).collect();
        for it in &asked {
            if let Err(e) = sync_compile(&b, it.req())? {
                return Err(v(format!("compile_jit_sync failed: {e}"), json!({"contract": it.describe(), "config": d})));
            }
            if r.chance(30) {
                if let LookupDecision::Compiled(p) = b.lookup(it.req()) {
                    observe(it, &p, &mut rt.gs)?;
                }
            }
        }
        if r.chance(50) {
            b.clear_resident();
            quiesce(&b)?;
            certain &= t.elapsed() < idle;
            let k = r.below(n + 1);
            for it in &asked[..k] {
                if let Err(e) = sync_compile(&b, it.req())? {
                    return Err(v(format!("compile_jit_sync failed: {e}"), json!({"contract": it.describe(), "config": d})));
                }
            }
            expected += k as u64;
            st.count("evictions:after_clear", k as u64);
        } else {
            expected += n as u64;
        }
        // All unused; all go.
        let t = Instant::now();
        while its.iter().any(|i| b.get_compiled(i.key.code_hash, i.key.spec_id).is_some()) {
            ensure!(t.elapsed() < Duration::from_secs(30), d, "programs unused for 30 s are still resident; the limit is {idle:?}: {:?}", b.stats());
            std::thread::sleep(Duration::from_millis(3));
        }
        std::thread::sleep(if r.chance(50) { idle + Duration::from_millis(30) } else { Duration::from_millis(30) });
        let s = quiesce(&b)?;
        if !certain {
            st.count("evictions:stalled", 1);
            break;
        }
        ensure!(s.evictions == expected && s.resident_entries == 0, d, "round {round}: {expected} programs were evicted; evictions are {}, resident {}", s.evictions, s.resident_entries);
        st.count("evictions:counted", expected);
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// A contract in steady but slow use heats up: it counts as idle only when it is not looked up.
fn warm(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 2);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let idle = Duration::from_millis(*r.pick(&[240, 320]));
    let n = r.range(16, 26);
    cfg.tuning.jit_opt_level = OptimizationLevel::None;
    cfg.tuning.jit_hot_threshold = n;
    cfg.tuning.idle_evict_duration = Some(idle);
    cfg.tuning.eviction_sweep_interval = Duration::from_millis(*r.pick(&[1, 20]));
    cfg.tuning.event_drain_interval = Duration::from_millis(*r.pick(&[1, 10]));
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}"), "idle_ms": idle.as_millis() as u64, "threshold": n});
    let (mut last, mut gap) = (Instant::now(), Duration::ZERO);
    for i in 0..n {
        match b.lookup(its[0].req()) {
            LookupDecision::Interpret(_) => {}
            _ => return Err(v(format!("a contract was compiled after {i} misses; the threshold is {n}"), d)),
        }
        gap = gap.max(last.elapsed());
        last = Instant::now();
        std::thread::sleep(idle / 8);
    }
    let s = quiesce(&b)?;
    gap = gap.max(last.elapsed());
    if gap >= idle / 2 {
        st.count("warm:stalled", 1);
    } else {
        match b.get_compiled(its[0].key.code_hash, its[0].key.spec_id) {
            Some(p) => observe(&its[0], &p, &mut rt.gs)?,
            None if s.evictions > 0 => {}
            None => {
                return Err(Violation::new(
                    format!("missed {n} times, the threshold, with at most {gap:?} between two lookups (idle limit {idle:?}), a contract was not compiled"),
                    d,
                ));
            }
        }
        st.count("warm:compiled", 1);
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// The memory budget holds, at the expense of the least recently used programs.
fn budget(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let n = r.range(4, 8);
    let its = items(r, n);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.tuning.jit_opt_level = OptimizationLevel::None;
    cfg.tuning.jit_hot_threshold = 1000;
    // Sizes, without a budget.
    let base;
    let mut sizes = vec![];
    {
        let b = start(&cfg)?;
        base = quiesce(&b)?.jit_total_bytes();
        let mut last = base;
        for it in &its {
            let _ = sync_compile(&b, it.req())?;
            let now = quiesce(&b)?.jit_total_bytes();
            sizes.push(now.saturating_sub(last));
            last = now;
        }
        ends(b, "")?;
        no_threads_left()?;
    }
    let total: u64 = sizes.iter().sum();
    if total == 0 || base != 0 {
        st.count("budget:unmeasured", 1);
        return Ok(());
    }
    let limit = match r.below(5) {
        0 => 1,
        _ => (total * r.range(20, 95) as u64) / 100,
    };
    cfg.tuning.resident_code_cache_bytes = limit as usize;
    // Persisted programs take nothing from the budget, so they stay.
    let kept: Vec<Arc<Item>> = if r.chance(50) { items(r, 2).into_iter().filter(|x| its.iter().all(|y| x.key != y.key)).collect() } else { vec![] };
    if !kept.is_empty() {
        cfg.store = Some(Arc::new(RuntimeArtifactStore::new().unwrap()));
    }
    let d = json!({"config": format!("{cfg:?}"), "sizes": sizes, "budget": limit});
    let b = start(&cfg)?;
    kept.iter().for_each(|i| b.prepare_aot(i.aot()));
    quiesce(&b)?;
    // Fill up, touching residents in random order between compilations.
    let mut order: Vec<usize> = vec![];
    let mut evictions = 0;
    for (k, it) in its.iter().enumerate() {
        let before: HashSet<usize> = (0..its.len()).filter(|i| b.get_compiled(its[*i].key.code_hash, its[*i].key.spec_id).is_some()).collect();
        let _ = sync_compile(&b, it.req())?;
        let s = quiesce(&b)?;
        ensure!(s.jit_total_bytes() <= limit, d, "{} bytes of code resident at rest; the budget is {limit}", s.jit_total_bytes());
        let after: HashSet<usize> = (0..its.len()).filter(|i| b.get_compiled(its[*i].key.code_hash, its[*i].key.spec_id).is_some()).collect();
        order.push(k);
        let cand: Vec<usize> = order.iter().copied().filter(|x| before.contains(x) || *x == k).collect();
        // The evicted are the oldest of the candidates.
        let evicted = cand.iter().filter(|x| !after.contains(x)).count();
        evictions += evicted as u64;
        ensure!(s.evictions == evictions, d, "{evictions} programs were evicted, {} are counted", s.evictions);
        let oldest: HashSet<usize> = cand[..evicted].iter().copied().collect();
        ensure!(
            cand.iter().all(|x| after.contains(x) != oldest.contains(x)),
            d,
            "evicted contracts are not the least recently used: used in order {cand:?}, kept {after:?}"
        );
        // No more than needed: without the last eviction the budget would have been exceeded.
        if evicted > 0 {
            let kept: u64 = cand[evicted - 1..].iter().map(|x| sizes[*x]).sum();
            ensure!(kept + 8192 > limit, d, "{evicted} programs evicted, more than needed: {kept} bytes with one more, budget {limit}");
            st.count("budget:evictions", evicted as u64);
        }
        order = cand.into_iter().filter(|x| after.contains(x)).collect();
        // Touch some.
        for _ in 0..r.below(4) {
            if order.is_empty() {
                break;
            }
            let i = r.below(order.len());
            let x = order.remove(i);
            match b.lookup(its[x].req()) {
                LookupDecision::Compiled(p) => observe(&its[x], &p, &mut rt.gs)?,
                y => return Err(v(format!("a resident program was answered {y:?}"), d)),
            }
            order.push(x);
            quiesce(&b)?;
        }
    }
    for it in &kept {
        match b.get_compiled(it.key.code_hash, it.key.spec_id) {
            Some(p) => observe(it, &p, &mut rt.gs)?,
            None => return Err(v("a persisted program was evicted for the budget of JIT code, which it does not use", d)),
        }
        st.count("budget:aot_kept", 1);
    }
    st.evals += 1;
    st.count("budget:runs", 1);
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// Never more jobs in flight than configured; what was turned away can be asked for again.
fn pending_cap(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 12);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let cap = *r.pick(&[1usize, 2, 3, 5]);
    cfg.tuning.jit_max_pending_jobs = cap;
    cfg.tuning.jit_hot_threshold = 1;
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let mut most = 0;
    for _ in 0..r.range(1, 4) {
        for it in &its {
            if r.chance(70) { b.compile_jit(it.req()) } else { let _ = b.lookup(it.req()); }
            let s = b.stats();
            // `dispatched` is read before the two others, so the difference is never too high.
            most = most.max(s.pending_jobs);
            ensure!(s.pending_jobs <= cap as u64, d, "{} jobs in flight, at most {cap} allowed", s.pending_jobs);
        }
        for _ in 0..50 {
            let s = b.stats();
            most = most.max(s.pending_jobs);
            ensure!(s.pending_jobs <= cap as u64, d, "{} jobs in flight, at most {cap} allowed", s.pending_jobs);
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    quiesce(&b)?;
    for it in &its {
        match blocking_lookup(&b, it.req())? {
            LookupDecision::Compiled(p) => observe(it, &p, &mut rt.gs)?,
            x => return Err(v(format!("with nothing in flight, a blocking lookup answered {x:?}"), d)),
        }
    }
    st.max("pending:most_in_flight", most);
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

fn env_overrides(_: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    const NAMES: [&str; 4] = ["REVMC_JIT_MODE", "REVMC_JIT_HELPER_PATH", "REVMC_JIT_HELPER_MEMORY_LIMIT_BYTES", "REVMC_JIT_HELPER_CPU_COUNT"];
    // No other thread of this process runs now.
    let unset = || NAMES.iter().for_each(|n| unsafe { std::env::remove_var(n) });
    for _ in 0..20 {
        unset();
        let mut base = base_config(r);
        base.jit_mode = if r.chance(50) { JitMode::OutOfProcess } else { JitMode::InProcess };
        base.jit_helper_path = r.chance(50).then(|| PathBuf::from("/nonexistent/x"));
        base.tuning.jit_helper_memory_limit_bytes = r.below(3) as u64;
        base.tuning.jit_helper_cpu_count = r.below(3);
        let mut want = base.clone();
        let mut bad = false;
        let mut set = vec![];
        if r.chance(50) {
            let x = *r.pick(&["in-process", "out-of-process", "out-of-process", "", "In-Process", "in process"]);
            set.push((NAMES[0], x.to_string()));
            match x {
                "in-process" => want.jit_mode = JitMode::InProcess,
                "out-of-process" => want.jit_mode = JitMode::OutOfProcess,
                _ => bad = true,
            }
        }
        if r.chance(50) {
            let x = format!("/nonexistent/helper{}", r.below(9));
            want.jit_helper_path = Some(x.clone().into());
            set.push((NAMES[1], x));
        }
        for (i, n) in NAMES[2..].iter().enumerate() {
            if r.chance(60) {
                let x = match r.below(6) {
                    0 => "0".into(),
                    1 => "18446744073709551615".into(),
                    2 => "18446744073709551616".into(),
                    3 => "-1".into(),
                    4 => "12k".into(),
                    _ => r.below(1 << 30).to_string(),
                };
                match x.parse::<u64>() {
                    Ok(y) if i == 0 => want.tuning.jit_helper_memory_limit_bytes = y,
                    Ok(y) => want.tuning.jit_helper_cpu_count = y as usize,
                    Err(_) => bad = true,
                }
                set.push((n, x));
            }
        }
        for (n, x) in &set {
            unsafe { std::env::set_var(n, x) };
        }
        let got = base.clone().with_env_overrides();
        let mut off = base.clone();
        off.enabled = false;
        off.blocking = false;
        let created = JitBackend::new(off).is_ok();
        unset();
        let d = json!({"environment": set, "base": format!("{base:?}")});
        match got {
            Err(e) => ensure!(bad, d, "a valid environment was refused: {e}"),
            Ok(g) => {
                ensure!(!bad, d, "an invalid environment was accepted");
                ensure!(format!("{g:?}") == format!("{want:?}"), d, "overrides gave {g:?}, not {want:?}");
            }
        }
        ensure!(created != bad, d, "JitBackend::new does not treat the environment like with_env_overrides");
        st.count("env:cases", 1);
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    Ok(())
}

// ---------------------------------------------------------------- liveness

/// Every operation on a service that was never started (or whose start is pending) returns.
fn unstarted(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = Arc::new(items(r, 3));
    let mut cfg = base_config(r);
    cfg.enabled = false;
    cfg.tuning.channel_capacity = *r.pick(&[1, 2, 8]);
    let b = if r.chance(20) { JitBackend::disabled() } else { start(&cfg)? };
    let only = r.below(10);
    let n = r.range(3, 40);
    let d = json!({"config": format!("{cfg:?}"), "operation": only});
    {
        let (b, its) = (b.clone(), its.clone());
        bounded(&format!("operation {only} x{n} on a service that was never started"), move || {
            for i in 0..n {
                let it = &its[i % its.len()];
                match only {
                    0 => b.clear_resident(),
                    1 => b.clear_persisted(),
                    2 => b.clear_all(),
                    3 => b.pause(),
                    4 => b.resume(),
                    5 => drop(b.lookup(it.req())),
                    6 => drop(b.get_compiled_tracked(it.key.code_hash, it.key.spec_id)),
                    7 => drop(b.set_enabled(false)),
                    8 => b.compile_jit(it.req()),
                    _ => drop(b.stats()),
                }
            }
        })?;
    }
    // It can be started afterwards and works.
    let b2 = b.clone();
    let e = bounded("set_enabled(true)", move || b2.set_enabled(true))?;
    ensure!(e.is_ok(), d, "could not be enabled: {e:?}");
    match bounded_lookup(&b, &its[0])? {
        LookupDecision::Compiled(p) => observe(&its[0], &p, &mut rt.gs)?,
        x => return Err(v(format!("after being enabled, a blocking lookup answered {x:?}"), d)),
    }
    st.evals += 1;
    st.count("unstarted:ops", n as u64);
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

fn blocking_lookup(b: &JitBackend, req: LookupRequest) -> Result<LookupDecision, Violation> {
    let b = b.clone();
    bounded("a blocking lookup", move || b.lookup_blocking(req))
}

fn sync_compile(b: &JitBackend, req: LookupRequest) -> Result<Result<(), String>, Violation> {
    let b = b.clone();
    bounded("a synchronous request", move || b.compile_jit_sync(req).map_err(|e| e.to_string()))
}

fn bounded_lookup(b: &JitBackend, it: &Arc<Item>) -> Result<LookupDecision, Violation> {
    let (b, it) = (b.clone(), it.clone());
    bounded("a blocking lookup", move || b.lookup_blocking(it.req()))
}

struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
    waiting: AtomicU64,
}

/// While the service itself is busy (held up in the user's callback), nothing documented as
/// non-blocking blocks, and nothing is lost without being counted.
fn gate(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = Arc::new(items(r, 4));
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    let t = *r.pick(&[1usize, 3]);
    cfg.tuning.jit_hot_threshold = t;
    cfg.tuning.channel_capacity = *r.pick(&[1, 2, 16]);
    let cap = cfg.tuning.channel_capacity as u64;
    let g = Arc::new(Gate { open: Mutex::new(false), cv: Condvar::new(), waiting: AtomicU64::new(0) });
    let g2 = g.clone();
    let first = AtomicBool::new(true);
    cfg.on_compilation = Some(Arc::new(move |_| {
        if first.swap(false, Relaxed) {
            g2.waiting.fetch_add(1, SeqCst);
            let mut o = g2.open.lock().unwrap();
            while !*o {
                o = g2.cv.wait(o).unwrap();
            }
        }
    }));
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let release = |g: &Gate| {
        *g.open.lock().unwrap() = true;
        g.cv.notify_all();
    };
    b.compile_jit(its[0].req());
    let t0 = Instant::now();
    while g.waiting.load(SeqCst) == 0 {
        if t0.elapsed() > HANG {
            release(&g);
            return Err(v("a requested compilation never ended", d));
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    // The service thread is inside the callback now.
    let n = 200u64;
    let (b2, i2) = (b.clone(), its.clone());
    let before = b.stats();
    let x = bounded("lookup, pause, resume, stats, get_compiled while the service is busy", move || {
        let (mut hits, mut misses) = (0u64, 0u64);
        let mut depth = 0usize;
        let mut wrong = false;
        for i in 0..n {
            match b2.lookup(i2[1 + i as usize % 3].req()) {
                LookupDecision::Compiled(_) => hits += 1,
                _ => misses += 1,
            }
            if i % 3 == 0 {
                b2.pause();
                depth += 1;
            } else if i % 3 == 1 {
                b2.resume();
                depth = depth.saturating_sub(1);
            }
            wrong |= b2.is_paused() != (depth > 0);
            let _ = b2.stats();
            let _ = b2.get_compiled(i2[0].key.code_hash, i2[0].key.spec_id);
        }
        for _ in 0..depth {
            b2.resume();
        }
        wrong |= b2.is_paused();
        (hits, misses, wrong)
    });
    let s = b.stats();
    release(&g);
    let (hits, misses, wrong) = x?;
    ensure!(!wrong, d, "is_paused does not follow pause and resume");
    ensure!(
        s.events_queued <= cap && s.events_queued + (s.events_dropped - before.events_dropped) == hits + misses,
        d,
        "{} lookups while busy: {} queued (capacity {cap}) and {} counted as dropped",
        hits + misses,
        s.events_queued,
        s.events_dropped - before.events_dropped
    );
    let s2 = quiesce(&b)?;
    ensure!(
        s2.lookup_hits + s2.lookup_misses + s2.events_dropped == hits + misses,
        d,
        "{} lookups made; at rest {} hits, {} misses, {} dropped",
        hits + misses,
        s2.lookup_hits,
        s2.lookup_misses,
        s2.events_dropped
    );
    match b.lookup(its[0].req()) {
        LookupDecision::Compiled(p) => observe(&its[0], &p, &mut rt.gs)?,
        x => return Err(v(format!("the contract compiled meanwhile is answered {x:?}"), d)),
    }
    st.count("gate:lookups_while_busy", n);
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// The last handle goes away while jobs are queued and running.
fn drop_in_flight(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = Arc::new(items(r, 10));
    let mut cfg = base_config(r);
    cfg.tuning.jit_worker_queue_capacity = *r.pick(&[1, 64]);
    if r.chance(20) {
        cfg.store = Some(Arc::new(RuntimeArtifactStore::new().unwrap()));
    }
    if r.chance(25) {
        cfg.jit_mode = JitMode::OutOfProcess;
    }
    let b = start(&cfg)?;
    let mut held = vec![];
    if r.chance(50) && let LookupDecision::Compiled(p) = bounded_lookup(&b, &its[0])? {
        held.push(p);
    }
    for it in its.iter() {
        match r.below(4) {
            0 if cfg.store.is_some() => b.prepare_aot(it.aot()),
            1 => {
                let _ = b.lookup(it.req());
            }
            2 => {
                // A waiter keeps the service alive until it has its answer.
                let (b, it) = (b.clone(), it.clone());
                std::thread::Builder::new().name("vh-op".into()).spawn(move || drop(b.lookup_blocking(it.req()))).unwrap();
            }
            _ => b.compile_jit(it.req()),
        }
    }
    if r.chance(30) {
        b.clear_resident();
    }
    if r.chance(30) {
        b.pause();
    }
    if r.chance(50) {
        std::thread::sleep(Duration::from_micros(r.below(5000) as u64));
    }
    if b.is_paused() && cfg.jit_mode == JitMode::OutOfProcess {
        // Waiters of a paused helper wait until it is resumed.
        b.resume();
    }
    ends(b, "with jobs in flight")?;
    no_threads_left()?;
    no_children_left()?;
    for p in held {
        observe(&its[0], &p, &mut rt.gs)?;
    }
    st.evals += 1;
    st.count("drops_in_flight", 1);
    st.nontrivial(r.u64());
    Ok(())
}

/// Synchronous callers are woken whatever happens to their job: result, clear, saturation.
fn waiters(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = Arc::new(items(r, 5));
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.tuning.jit_max_pending_jobs = *r.pick(&[1, 2, 64]);
    cfg.tuning.jit_worker_queue_capacity = *r.pick(&[1, 64]);
    cfg.tuning.channel_capacity = *r.pick(&[1, 64]);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let n = 6;
    let calls = 12;
    let done = Arc::new(AtomicU64::new(0));
    let bad: Arc<Mutex<Option<Violation>>> = Arc::default();
    for i in 0..n {
        let (b, its, done, bad) = (b.clone(), its.clone(), done.clone(), bad.clone());
        let mut r = Rng::new(r.u64());
        std::thread::Builder::new()
            .name("vh-op".into())
            .spawn(move || {
                let mut gs = crate::exec::GuardedStack::new(true);
                for _ in 0..calls {
                    let it = if r.chance(60) { &its[0] } else { &its[r.below(its.len())] };
                    match b.lookup_blocking(it.req()) {
                        LookupDecision::Compiled(p) => {
                            if let Err(e) = observe(it, &p, &mut gs) {
                                bad.lock().unwrap().get_or_insert(e);
                            }
                        }
                        LookupDecision::Interpret(InterpretReason::JitFailed) => {}
                        x => {
                            bad.lock().unwrap().get_or_insert(v(format!("waiter {i}: {x:?}"), json!({})));
                        }
                    }
                    done.fetch_add(1, SeqCst);
                }
            })
            .unwrap();
    }
    let t = Instant::now();
    let mut clears = 0;
    while done.load(SeqCst) < n * calls {
        if r.chance(70) {
            let b = b.clone();
            bounded("clear_resident", move || b.clear_resident())?;
            clears += 1;
        }
        std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
        ensure!(t.elapsed() < HANG * 2, d, "{} of {} synchronous calls returned; the others wait forever: {:?}", done.load(SeqCst), n * calls, b.stats());
    }
    if let Some(e) = bad.lock().unwrap().take() {
        return Err(e);
    }
    let _ = rt;
    st.count("waiters:calls", n * calls);
    st.count("waiters:clears", clears);
    st.evals += 1;
    st.nontrivial(r.u64());
    let s = quiesce(&b)?;
    ensure!(s.pending_jobs == 0, d, "{} jobs pending at rest", s.pending_jobs);
    ends(b, "")?;
    no_threads_left()
}

/// A store that fails on demand.
#[derive(Debug)]
struct Faulty {
    inner: RuntimeArtifactStore,
    /// Bits: load_all, load, store, clear fail; load finds nothing; dylib missing/garbage/empty;
    /// wrong symbol.
    fault: AtomicU64,
    scratch: tempfile::TempDir,
}

impl Faulty {
    fn new() -> Self {
        Self { inner: RuntimeArtifactStore::new().unwrap(), fault: AtomicU64::new(0), scratch: tempfile::tempdir_in(crate::fw::scratch()).unwrap() }
    }
    fn on(&self, bit: u32) -> bool {
        self.fault.load(SeqCst) & (1 << bit) != 0
    }
    fn twist(&self, mut s: StoredArtifact) -> StoredArtifact {
        if self.on(5) {
            s.dylib_path = self.scratch.path().join("missing.so");
        }
        if self.on(6) {
            let p = self.scratch.path().join("garbage.so");
            let _ = std::fs::write(&p, [0x5au8; 3000]);
            s.dylib_path = p;
        }
        if self.on(7) {
            let p = self.scratch.path().join("empty.so");
            let _ = std::fs::write(&p, []);
            s.dylib_path = p;
        }
        if self.on(8) {
            s.manifest.symbol_name = "no_such_symbol".into();
        }
        s
    }
}

impl ArtifactStore for Faulty {
    fn load_all(&self) -> eyre::Result<Vec<(ArtifactKey, StoredArtifact)>> {
        if self.on(0) {
            eyre::bail!("injected: load_all");
        }
        Ok(self.inner.load_all()?.into_iter().map(|(k, s)| (k, self.twist(s))).collect())
    }
    fn load(&self, key: &ArtifactKey) -> eyre::Result<Option<StoredArtifact>> {
        if self.on(1) {
            eyre::bail!("injected: load");
        }
        if self.on(4) {
            return Ok(None);
        }
        Ok(self.inner.load(key)?.map(|s| self.twist(s)))
    }
    fn store(&self, key: &ArtifactKey, manifest: &ArtifactManifest, bytes: &[u8]) -> eyre::Result<()> {
        if self.on(2) {
            eyre::bail!("injected: store");
        }
        self.inner.store(key, manifest, bytes)
    }
    fn delete(&self, key: &ArtifactKey) -> eyre::Result<()> {
        self.inner.delete(key)
    }
    fn clear(&self) -> eyre::Result<()> {
        if self.on(3) {
            eyre::bail!("injected: clear");
        }
        self.inner.clear()
    }
}

/// A service that cannot start says so, returns from every call, and starts once it can.
fn failing_start(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = Arc::new(items(r, 3));
    let mut cfg = base_config(r);
    let store = Arc::new(Faulty::new());
    store.fault.store(1, SeqCst);
    cfg.store = Some(store.clone());
    cfg.tuning.channel_capacity = *r.pick(&[1, 2, 8]);
    cfg.enabled = true;
    let d = json!({"config": format!("{cfg:?}")});
    ensure!(JitBackend::new(cfg.clone()).is_err(), d, "the service started although its artifacts could not be read");
    cfg.enabled = false;
    let b = start(&cfg)?;
    ensure!(b.set_enabled(true).is_err(), d, "enabling succeeded although the artifacts could not be read");
    {
        let (b, its) = (b.clone(), its.clone());
        let which = r.below(7);
        bounded("operations on a service that cannot start", move || {
            for i in 0..30 {
                let it = &its[i % its.len()];
                match which {
                    0 => b.compile_jit(it.req()),
                    1 => b.clear_all(),
                    2 => drop(b.lookup_blocking(it.req())),
                    3 => drop(b.compile_jit_sync(it.req())),
                    4 => b.prepare_aot(it.aot()),
                    5 => b.pause(),
                    _ => drop(b.lookup(it.req())),
                }
            }
        })?;
    }
    let _ = b.set_enabled(false);
    store.fault.store(0, SeqCst);
    let e = b.set_enabled(true);
    ensure!(e.is_ok(), d, "the service does not start once its artifacts can be read: {e:?}");
    match bounded_lookup(&b, &its[0])? {
        LookupDecision::Compiled(p) => observe(&its[0], &p, &mut rt.gs)?,
        x => return Err(v(format!("started late, a blocking lookup answered {x:?}"), d)),
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

// ---------------------------------------------------------------- artifacts

fn some_key(r: &mut Rng, hashes: &[B256]) -> ArtifactKey {
    ArtifactKey {
        runtime: RuntimeCacheKey {
            code_hash: *r.pick(hashes),
            spec_id: *r.pick(&[SpecId::CANCUN, SpecId::PRAGUE, SpecId::OSAKA, SpecId::FRONTIER, SpecId::ISTANBUL]),
        },
        backend: BackendSelection::Llvm,
        opt_level: *r.pick(&[OptimizationLevel::None, OptimizationLevel::Less, OptimizationLevel::Default, OptimizationLevel::Aggressive]),
    }
}

fn manifest(r: &mut Rng, key: &ArtifactKey, bytes: &[u8]) -> ArtifactManifest {
    ArtifactManifest {
        artifact_key: key.clone(),
        symbol_name: format!("s{}", r.u64()),
        bytecode_len: r.below(1000),
        artifact_len: bytes.len(),
        created_at_unix_secs: r.u64(),
        content_hash: keccak256(bytes).0,
    }
}

fn same_manifest(a: &ArtifactManifest, b: &ArtifactManifest) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

/// The store against a map: what was stored last under exactly this key is what is read.
fn store_model(_: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let store = RuntimeArtifactStore::new().map_err(|e| v(format!("cannot create a store: {e}"), json!({})))?;
    // Hashes that differ in one nibble, or only far into the hash.
    let base = B256::from(r.u256());
    let mut hashes = vec![base, B256::ZERO, B256::with_last_byte(1)];
    for i in [0usize, 15, 16, 31] {
        let mut h = base;
        h[i] ^= if r.chance(50) { 0x10 } else { 0x01 };
        hashes.push(h);
    }
    let mut model: HashMap<ArtifactKey, (ArtifactManifest, Vec<u8>, PathBuf)> = HashMap::new();
    let mut log = vec![];
    let mut dir: Option<PathBuf> = None;
    for _ in 0..r.range(10, 80) {
        let key = some_key(r, &hashes);
        let d = |log: &Vec<String>| json!({"history": log, "key": format!("{key:?}")});
        match r.weighted(&[10, 6, 3, 5, 1]) {
            0 => {
                let n = *r.pick(&[0, 1, 100, 5000]);
                let bytes = r.bytes(n);
                let m = manifest(r, &key, &bytes);
                log.push(format!("store {key:?}"));
                store.store(&key, &m, &bytes).map_err(|e| v(format!("store failed: {e}"), d(&log)))?;
                let s = store.load(&key).ok().flatten().ok_or_else(|| v("a stored artifact is not found", d(&log)))?;
                dir = s.dylib_path.parent().map(|p| p.to_path_buf());
                model.insert(key.clone(), (m, bytes, s.dylib_path));
            }
            1 => {
                log.push(format!("load {key:?}"));
                let got = store.load(&key).map_err(|e| v(format!("load failed: {e}"), d(&log)))?;
                ensure!(got.is_some() == model.contains_key(&key), d(&log), "load found an artifact: {}, the history says {}", got.is_some(), model.contains_key(&key));
            }
            2 => {
                log.push(format!("delete {key:?}"));
                store.delete(&key).map_err(|e| v(format!("delete failed: {e}"), d(&log)))?;
                if let Some((_, _, p)) = model.remove(&key) {
                    ensure!(!p.exists(), d(&log), "the file of a deleted artifact is still there");
                }
            }
            3 => {
                log.push("load_all".into());
                let all = store.load_all().map_err(|e| v(format!("load_all failed: {e}"), d(&log)))?;
                let keys: HashSet<ArtifactKey> = all.iter().map(|x| x.0.clone()).collect();
                ensure!(all.len() == keys.len() && keys == model.keys().cloned().collect(), d(&log), "load_all returned {} artifacts, {} are stored", all.len(), model.len());
                for (k, s) in all {
                    ensure!(same_manifest(&s.manifest, &model[&k].0), d(&log), "load_all returned another artifact's manifest");
                }
            }
            _ => {
                log.push("clear".into());
                store.clear().map_err(|e| v(format!("clear failed: {e}"), d(&log)))?;
                for (_, (_, _, p)) in model.drain() {
                    ensure!(!p.exists(), d(&log), "the file of a cleared artifact is still there");
                }
            }
        }
        ensure!(store.len() == model.len() && store.is_empty() == model.is_empty(), d(&log), "len() = {}, {} stored", store.len(), model.len());
        for (k, (m, bytes, _)) in &model {
            let s = store.load(k).ok().flatten().ok_or_else(|| v("an untouched artifact is gone", d(&log)))?;
            ensure!(same_manifest(&s.manifest, m), d(&log), "an artifact's manifest is another's: {:?}, not {m:?}", s.manifest);
            let got = std::fs::read(&s.dylib_path).map_err(|e| v(format!("the file of a stored artifact cannot be read: {e}"), d(&log)))?;
            ensure!(got == *bytes, d(&log), "the file of {k:?} does not have the bytes stored under it");
        }
        if let Some(dir) = &dir {
            let files = std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0);
            ensure!(files == model.len(), d(&log), "{files} files on disk for {} artifacts", model.len());
        }
        st.count("store:ops", 1);
    }
    drop(store);
    if let Some(dir) = dir {
        ensure!(!dir.exists(), json!({}), "the store's directory outlives it");
    }
    st.evals += 1;
    st.nontrivial(hash_bytes(0, format!("{log:?}").as_bytes()));
    Ok(())
}

/// The store from several threads: every artifact read is one that was stored under that key, whole.
fn store_threads(_: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let store = Arc::new(RuntimeArtifactStore::new().unwrap());
    let hashes: Vec<B256> = (0..2).map(|_| B256::from(r.u256())).collect();
    let keys: Vec<ArtifactKey> = (0..3).map(|_| some_key(r, &hashes)).collect();
    let hs: Vec<_> = (0..4)
        .map(|t| {
            let (store, keys) = (store.clone(), keys.clone());
            let mut r = Rng::new(r.u64());
            std::thread::spawn(move || -> Result<u64, String> {
                let mut n = 0;
                for i in 0..60 {
                    let k = r.pick(&keys).clone();
                    match r.weighted(&[6, 8, if t == 0 { 1 } else { 0 }]) {
                        0 => {
                            // Content is a function of key and length.
                            let mut x = Rng::new(hash_bytes(1, format!("{k:?}").as_bytes()));
                            let bytes = x.bytes(20_000);
                            let m = ArtifactManifest {
                                artifact_key: k.clone(),
                                symbol_name: format!("{k:?}"),
                                bytecode_len: i,
                                artifact_len: bytes.len(),
                                created_at_unix_secs: 0,
                                content_hash: keccak256(&bytes).0,
                            };
                            store.store(&k, &m, &bytes).map_err(|e| format!("store: {e}"))?;
                        }
                        1 => {
                            if let Some(s) = store.load(&k).map_err(|e| format!("load: {e}"))? {
                                if s.manifest.symbol_name != format!("{k:?}") || s.manifest.artifact_key != k {
                                    return Err(format!("load of {k:?} gave the manifest of {:?}", s.manifest.artifact_key));
                                }
                                // The file may have been deleted meanwhile; otherwise it is whole.
                                if let Ok(b) = std::fs::read(&s.dylib_path)
                                    && keccak256(&b).0 != s.manifest.content_hash
                                {
                                    return Err(format!("the file of {k:?} has {} bytes of other content than its manifest says", b.len()));
                                }
                                n += 1;
                            }
                        }
                        _ => store.delete(&k).map_err(|e| format!("delete: {e}"))?,
                    }
                }
                Ok(n)
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => st.count("store:concurrent_reads", n),
            Ok(Err(e)) => return Err(v(e, json!({"keys": format!("{keys:?}")}))),
            Err(_) => return Err(v("the store panicked", json!({}))),
        }
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    Ok(())
}

fn check_manifest(it: &Item, k: &ArtifactKey, s: &StoredArtifact, opt: OptimizationLevel) -> Result<(), Violation> {
    let d = json!({"contract": it.describe(), "manifest": format!("{:?}", s.manifest)});
    let bytes = std::fs::read(&s.dylib_path).map_err(|e| v(format!("a persisted artifact cannot be read: {e}"), d.clone()))?;
    ensure!(k.runtime == it.key && k.opt_level == opt && s.manifest.artifact_key == *k, d, "an artifact is filed under the wrong key: {k:?}");
    ensure!(s.manifest.artifact_len == bytes.len(), d, "manifest says {} bytes, the file has {}", s.manifest.artifact_len, bytes.len());
    ensure!(s.manifest.content_hash == keccak256(&bytes).0, d, "the manifest's content hash is not the file's");
    ensure!(s.manifest.bytecode_len == it.code.len(), d, "manifest says {} bytes of code, the contract has {}", s.manifest.bytecode_len, it.code.len());
    Ok(())
}

/// Artifacts prepared by one service are used by the next, without compiling.
fn preload(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let n = r.range(2, 4);
    let its = items(r, n);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.aot = r.chance(50);
    cfg.tuning.jit_hot_threshold = 1;
    let store = Arc::new(RuntimeArtifactStore::new().unwrap());
    cfg.store = Some(store.clone());
    let d = json!({"config": format!("{cfg:?}")});
    let b = start(&cfg)?;
    if cfg.aot {
        for it in &its {
            let _ = b.lookup(it.req());
        }
    } else if r.chance(50) {
        // Some already there, some twice.
        if r.chance(50) {
            b.prepare_aot(its[r.below(n)].aot());
            if r.chance(70) {
                quiesce(&b)?;
            }
        }
        let mut all: Vec<_> = its.iter().map(|i| i.aot()).collect();
        if r.chance(50) {
            all.insert(r.below(n), its[r.below(n)].aot());
        }
        b.prepare_aot_batch(all);
    } else {
        its.iter().for_each(|i| b.prepare_aot(i.aot()));
    }
    let s = quiesce(&b)?;
    ensure!(s.compilations_succeeded == n as u64, d, "{} of {n} artifacts prepared: {s:?}", s.compilations_succeeded);
    let all = store.load_all().unwrap();
    ensure!(all.len() == n, d, "{} artifacts persisted, {n} prepared", all.len());
    for (k, s) in &all {
        let it = its.iter().find(|i| i.key == k.runtime).ok_or_else(|| v("an artifact of an unknown contract", d.clone()))?;
        check_manifest(it, k, s, cfg.tuning.aot_opt_level)?;
    }
    for it in &its {
        match b.lookup(it.req()) {
            LookupDecision::Compiled(p) => {
                ensure!(matches!(p.kind, ProgramKind::Aot), d, "a prepared contract's program is {:?}", p.kind);
                observe(it, &p, &mut rt.gs)?;
            }
            x => return Err(v(format!("a prepared contract is answered {x:?}"), d)),
        }
    }
    if r.chance(50) {
        // Dropped from memory, found again in the store.
        b.clear_resident();
        if r.chance(50) {
            for it in &its {
                b.prepare_aot(it.aot());
            }
        } else {
            b.prepare_aot_batch(its.iter().map(|i| i.aot()).collect());
        }
        let s = quiesce(&b)?;
        ensure!(s.compilations_dispatched == n as u64 && s.resident_entries == n as u64, d, "persisted artifacts were compiled again or not loaded: {s:?}");
        for it in &its {
            let p = b.get_compiled(it.key.code_hash, it.key.spec_id).ok_or_else(|| v("not loaded", d.clone()))?;
            observe(it, &p, &mut rt.gs)?;
        }
    }
    ends(b, "")?;
    // A new service.
    let mut cfg2 = base_config(r);
    keep_all(&mut cfg2);
    cfg2.tuning.aot_opt_level = cfg.tuning.aot_opt_level;
    cfg2.tuning.jit_hot_threshold = 1;
    cfg2.store = Some(store.clone());
    cfg2.enabled = r.chance(60);
    let b = start(&cfg2)?;
    if !cfg2.enabled {
        ensure!(b.stats().resident_entries == 0, d, "artifacts were loaded before the service was enabled");
        let _ = b.set_enabled(true);
    }
    let mut held = vec![];
    for it in &its {
        match b.lookup(it.req()) {
            LookupDecision::Compiled(p) => {
                ensure!(matches!(p.kind, ProgramKind::Aot), d, "a preloaded program is {:?}", p.kind);
                observe(it, &p, &mut rt.gs)?;
                held.push(p);
            }
            x => return Err(v(format!("a persisted contract is answered {x:?} by a new service"), d)),
        }
    }
    let s = quiesce(&b)?;
    ensure!(s.compilations_dispatched == 0 && s.lookup_hits == n as u64, d, "the new service compiled although everything was persisted: {s:?}");
    match r.below(3) {
        0 => {
            b.clear_persisted();
            let s = quiesce(&b)?;
            ensure!(store.is_empty() && s.resident_entries == n as u64, d, "clear_persisted left {} artifacts and {} resident programs", store.len(), s.resident_entries);
        }
        1 => {
            b.clear_all();
            let s = quiesce(&b)?;
            ensure!(store.is_empty() && s.resident_entries == 0, d, "clear_all left {} artifacts and {} resident programs", store.len(), s.resident_entries);
        }
        _ => {}
    }
    for (it, p) in its.iter().zip(&held) {
        observe(it, p, &mut rt.gs)?;
    }
    ends(b, "")?;
    drop(store);
    drop(cfg);
    drop(cfg2);
    for (it, p) in its.iter().zip(&held) {
        observe(it, p, &mut rt.gs)?;
        st.count("aot:runs_after_shutdown", 1);
    }
    st.evals += 1;
    st.count("aot:preloaded", n as u64);
    st.nontrivial(r.u64());
    no_threads_left()
}

/// A store that fails, or whose files are damaged, costs compilations, never a wrong program.
fn store_faults(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 3);
    let store = Arc::new(Faulty::new());
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.tuning.jit_hot_threshold = 1;
    cfg.store = Some(store.clone());
    cfg.aot = r.chance(30);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    b.prepare_aot(its[0].aot());
    quiesce(&b)?;
    let mut jobs = 1;
    for _ in 0..r.range(2, 5) {
        let bit = r.range(1, 8);
        store.fault.store(1 << bit, SeqCst);
        st.count(format!("fault:{bit}"), 1);
        b.clear_resident();
        let k = r.below(its.len());
        let before = b.stats();
        b.prepare_aot(its[k].aot());
        let s = quiesce(&b)?;
        // A job counts as succeeded exactly when it left the contract compiled.
        let ok = b.get_compiled(its[k].key.code_hash, its[k].key.spec_id).is_some() as u64;
        if s.compilations_dispatched == before.compilations_dispatched + 1 {
            let got = (s.compilations_succeeded - before.compilations_succeeded, s.compilations_failed - before.compilations_failed);
            ensure!(got == (ok, 1 - ok), d, "with an injected fault {bit} the job counted as {got:?} (succeeded, failed), and its contract is {} compiled", if ok == 1 { "" } else { "not" });
            st.count(format!("faults:job:{}", if ok == 1 { "ok" } else { "failed" }), 1);
        }
        ensure!(
            s.compilations_dispatched == s.compilations_succeeded + s.compilations_failed,
            d,
            "with an injected fault {bit}: {} jobs, {} + {} ended",
            s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed
        );
        ensure!(s.compilations_dispatched <= jobs + 1, d, "one request became {} jobs", s.compilations_dispatched - jobs);
        if let Some(p) = b.get_compiled(its[k].key.code_hash, its[k].key.spec_id) {
            observe(&its[k], &p, &mut rt.gs)?;
        }
        // Nothing is stuck: another contract compiles (without the store in JIT mode).
        let j = (k + 1) % its.len();
        if !cfg.aot {
            match blocking_lookup(&b, its[j].req())? {
                LookupDecision::Compiled(p) => observe(&its[j], &p, &mut rt.gs)?,
                x => return Err(v(format!("with a failing store, JIT compilation answered {x:?} (fault {bit})"), d)),
            }
        }
        if r.chance(40) {
            b.clear_persisted();
        }
        // A new service over the damaged store.
        if bit >= 5 {
            let mut c2 = base_config(r);
            c2.store = Some(store.clone());
            let b2 = start(&c2)?;
            for it in &its {
                if let LookupDecision::Compiled(p) = b2.lookup(it.req()) {
                    observe(it, &p, &mut rt.gs)?;
                }
            }
            match blocking_lookup(&b2, its[0].req())? {
                LookupDecision::Compiled(p) => observe(&its[0], &p, &mut rt.gs)?,
                x => return Err(v(format!("over damaged artifacts, a blocking lookup answered {x:?}"), d)),
            }
            ends(b2, "")?;
        }
        // Repaired: the same request succeeds.
        store.fault.store(0, SeqCst);
        if r.chance(40) {
            b.clear_resident();
        }
        b.prepare_aot(its[k].aot());
        let s = quiesce(&b)?;
        jobs = s.compilations_dispatched;
        match b.get_compiled(its[k].key.code_hash, its[k].key.spec_id) {
            Some(p) => observe(&its[k], &p, &mut rt.gs)?,
            None => return Err(v(format!("after fault {bit} was repaired the contract still cannot be prepared: {s:?}"), d)),
        }
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// Ahead-of-time jobs of a service that has no store: each fails, is counted as failed, leaves
/// nothing resident and does not keep the contract from being compiled otherwise.
fn no_store(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 3);
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.tuning.jit_hot_threshold = 1_000_000;
    cfg.store = None;
    cfg.aot = false;
    let events = record(&mut cfg);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let (mut aot, mut jit) = (0u64, [false; 3]);
    for _ in 0..r.range(3, 9) {
        let k = r.below(3);
        if r.chance(65) {
            if !jit[k] {
                aot += 1;
            }
            b.prepare_aot(its[k].aot());
        } else {
            match blocking_lookup(&b, its[k].req())? {
                LookupDecision::Compiled(p) => observe(&its[k], &p, &mut rt.gs)?,
                x => return Err(v(format!("without a store, a blocking lookup answered {x:?}"), d)),
            }
            jit[k] = true;
        }
        let s = quiesce(&b)?;
        let n = jit.iter().filter(|x| **x).count() as u64;
        let got = (s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed, s.resident_entries);
        ensure!(got == (n + aot, n, aot, n), d, "without a store, after {aot} ahead-of-time and {n} just-in-time jobs (dispatched, succeeded, failed, resident) are {got:?}");
        let ev = events.0.lock().unwrap().len() as u64;
        ensure!(ev == n + aot, d, "{ev} compilation events for {} jobs", n + aot);
        for (i, it) in its.iter().enumerate() {
            ensure!(b.get_compiled(it.key.code_hash, it.key.spec_id).is_some() == jit[i], d, "without a store, contract {i} is resident: {}", !jit[i]);
        }
    }
    st.count("stats:storeless_jobs", aot);
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// Storing again under a key does not disturb programs running from the earlier artifact.
fn overwrite(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 2);
    let store = Arc::new(RuntimeArtifactStore::new().unwrap());
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.store = Some(store.clone());
    let b = start(&cfg)?;
    its.iter().for_each(|i| b.prepare_aot(i.aot()));
    quiesce(&b)?;
    let mut held = vec![];
    for it in &its {
        match b.get_compiled(it.key.code_hash, it.key.spec_id) {
            Some(p) => held.push(p),
            None => return Err(v("a prepared contract is not resident", json!({"config": format!("{cfg:?}")}))),
        }
    }
    let all = store.load_all().unwrap();
    let other = std::fs::read(&all[0].1.dylib_path).unwrap_or_default();
    for (k, s) in &all {
        let bytes = match r.below(4) {
            0 => vec![0; 64],
            1 => vec![0xcc; other.len()],
            2 => vec![],
            _ => other.clone(),
        };
        let _ = store.store(k, &s.manifest, &bytes);
        for (it, p) in its.iter().zip(&held) {
            observe(it, p, &mut rt.gs)?;
            st.count("aot:runs_after_overwrite", 1);
        }
    }
    b.clear_all();
    quiesce(&b)?;
    for (it, p) in its.iter().zip(&held) {
        observe(it, p, &mut rt.gs)?;
    }
    // Prepared afresh.
    drop(held);
    its.iter().for_each(|i| b.prepare_aot(i.aot()));
    quiesce(&b)?;
    for it in &its {
        match b.get_compiled(it.key.code_hash, it.key.spec_id) {
            Some(p) => observe(it, &p, &mut rt.gs)?,
            None => return Err(v("a contract cannot be prepared again after clear_all", json!({"config": format!("{cfg:?}")}))),
        }
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

/// Two services over one store at once.
fn shared_store(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = Arc::new(items(r, 3));
    let store = Arc::new(RuntimeArtifactStore::new().unwrap());
    let mut cfgs = vec![];
    for _ in 0..2 {
        let mut c = base_config(r);
        keep_all(&mut c);
        c.tuning.aot_opt_level = OptimizationLevel::None;
        c.store = Some(store.clone());
        cfgs.push(c);
    }
    let bs: Vec<JitBackend> = cfgs.iter().map(start).collect::<Result<_, _>>()?;
    let fail: Arc<Mutex<Option<Violation>>> = Arc::default();
    let hs: Vec<_> = bs
        .iter()
        .map(|b| {
            let (b, its, fail) = (b.clone(), its.clone(), fail.clone());
            let mut r = Rng::new(r.u64());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut gs = crate::exec::GuardedStack::new(true);
                    for _ in 0..60 {
                        let it = r.pick(&its).clone();
                        match r.below(6) {
                            0 => b.prepare_aot(it.aot()),
                            1 if r.chance(20) => b.clear_resident(),
                            2 if r.chance(10) => b.clear_all(),
                            _ => {
                                if let Some(p) = b.get_compiled(it.key.code_hash, it.key.spec_id)
                                    && let Err(e) = observe(&it, &p, &mut gs)
                                {
                                    fail.lock().unwrap().get_or_insert(e);
                                    return;
                                }
                            }
                        }
                        std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    if let Some(e) = fail.lock().unwrap().take() {
        return Err(e);
    }
    for b in &bs {
        quiesce(b)?;
    }
    // Now undisturbed, everything can be prepared.
    for b in &bs {
        its.iter().for_each(|i| b.prepare_aot(i.aot()));
        quiesce(b)?;
        for it in its.iter() {
            match b.get_compiled(it.key.code_hash, it.key.spec_id) {
                Some(p) => observe(it, &p, &mut rt.gs)?,
                None => return Err(v("a contract cannot be prepared over a shared store", json!({"stats": format!("{:?}", b.stats())}))),
            }
        }
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    for b in bs {
        ends(b, "")?;
    }
    no_threads_left()
}

// ---------------------------------------------------------------- out of process

/// Live child processes of this one.
fn children() -> Vec<i32> {
    let me = std::process::id();
    let Ok(d) = std::fs::read_dir("/proc") else { return vec![] };
    d.filter_map(|e| {
        let pid: i32 = e.ok()?.file_name().to_str()?.parse().ok()?;
        let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
        let rest = stat.rsplit_once(')')?.1;
        let f: Vec<&str> = rest.split_whitespace().collect();
        (f.get(1)?.parse::<u32>().ok()? == me).then_some(pid)
    })
    .collect()
}

fn no_children_left() -> Result<(), Violation> {
    let t = Instant::now();
    while !children().is_empty() {
        ensure!(t.elapsed() < Duration::from_secs(30), json!({}), "{} helper processes are left 30 s after the service was dropped", children().len());
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(())
}

fn helper_config(r: &mut Rng) -> RuntimeConfig {
    let mut cfg = base_config(r);
    keep_all(&mut cfg);
    cfg.jit_mode = JitMode::OutOfProcess;
    cfg.tuning.jit_timeout = Duration::from_secs(50);
    cfg.tuning.jit_hot_threshold = 1;
    cfg
}

/// Programs compiled by the helper behave; custom gas schedules and settings reach it.
fn helper(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let mut cfg = helper_config(r);
    let gp = if r.chance(40) {
        let mut w = crate::env::World::random(r, *r.clone().pick(&[SpecId::BERLIN, SpecId::CANCUN, SpecId::OSAKA]));
        crate::diff::custom_gas(r, &mut w);
        Some(w.gas_params)
    } else {
        None
    };
    cfg.gas_params = gp.clone();
    let its = items_with(r, 8, gp.as_ref());
    if r.chance(30) {
        cfg.jit_helper_path = std::env::current_exe().ok();
    }
    if r.chance(20) {
        cfg.tuning.jit_helper_cpu_count = r.range(1, 3);
    }
    let events = record(&mut cfg);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    for it in &its {
        if r.chance(40) {
            b.compile_jit(it.req());
        } else if r.chance(30) {
            let _ = b.lookup(it.req());
        }
    }
    let mut held = vec![];
    for (k, it) in its.iter().enumerate() {
        match bounded_lookup(&b, it)? {
            LookupDecision::Compiled(p) => {
                ensure!(matches!(p.kind, ProgramKind::Jit), d, "the helper's program is {:?}", p.kind);
                observe(it, &p, &mut rt.gs)?;
                held.push((k, p));
            }
            x => return Err(v(format!("out of process, a blocking lookup answered {x:?}"), json!({"contract": it.describe(), "config": d, "stats": format!("{:?}", b.stats())}))),
        }
    }
    let s = quiesce(&b)?;
    ensure!(
        s.compilations_succeeded == its.len() as u64 && s.compilations_failed == 0 && s.compilations_dispatched == its.len() as u64,
        d,
        "{} contracts: {s:?}",
        its.len()
    );
    let ev = events.0.lock().unwrap().clone();
    ensure!(ev.len() == its.len() && ev.iter().all(|e| e.3 && e.2 == CompilationKind::Jit), d, "{} compilation events for {} contracts", ev.len(), its.len());
    ensure!(s.jit_helper_spawns == 1, d, "{} helpers were started", s.jit_helper_spawns);
    ends(b, "out of process")?;
    no_threads_left()?;
    no_children_left()?;
    for (k, p) in &held {
        observe(&its[*k], p, &mut rt.gs)?;
    }
    st.evals += its.len() as u64;
    st.count("helper:programs", its.len() as u64);
    st.nontrivial(r.u64());
    Ok(())
}

/// The helper is killed, stopped and starved; the service goes on.
fn helper_kill(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let mut cfg = helper_config(r);
    let mut its = items(r, 16);
    // Not asked for until the end.
    let fresh = its.split_off(8);
    let its = Arc::new(its);
    let stopped = r.chance(40);
    if stopped {
        cfg.tuning.jit_timeout = Duration::from_millis(if r.chance(50) { 300 } else { 1500 });
    }
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let stop = Arc::new(AtomicBool::new(false));
    let fail: Arc<Mutex<Option<Violation>>> = Arc::default();
    let done = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..3)
        .map(|_| {
            let (b, its, stop, fail, done) = (b.clone(), its.clone(), stop.clone(), fail.clone(), done.clone());
            let mut r = Rng::new(r.u64());
            std::thread::Builder::new()
                .name("vh-op".into())
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut gs = crate::exec::GuardedStack::new(true);
                    while !stop.load(Relaxed) {
                        let it = r.pick(&its);
                        match b.lookup_blocking(it.req()) {
                            LookupDecision::Compiled(p) => {
                                if let Err(e) = observe(it, &p, &mut gs) {
                                    fail.lock().unwrap().get_or_insert(e);
                                    break;
                                }
                            }
                            LookupDecision::Interpret(InterpretReason::JitFailed) => {}
                            x => {
                                fail.lock().unwrap().get_or_insert(v(format!("{x:?}"), json!({})));
                                break;
                            }
                        }
                        done.fetch_add(1, SeqCst);
                        if r.chance(20) {
                            b.clear_resident();
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    let mut kills = 0u64;
    for _ in 0..r.range(2, 8) {
        std::thread::sleep(Duration::from_millis(r.below(80) as u64));
        for c in children() {
            // Between fork and exec it is not a helper yet; stopped there, it would stop our own
            // process inside `Command::spawn`.
            if stopped && std::fs::read(format!("/proc/{c}/environ")).ok() == std::fs::read("/proc/self/environ").ok() {
                continue;
            }
            unsafe { libc::kill(c, if stopped { libc::SIGSTOP } else { *r.pick(&[libc::SIGKILL, libc::SIGTERM]) }) };
            kills += 1;
        }
    }
    stop.store(true, Relaxed);
    let t = Instant::now();
    while !hs.iter().all(|h| h.is_finished()) {
        ensure!(t.elapsed() < HANG * 2, d, "with its helper killed the service never answered: {:?}", b.stats());
        std::thread::sleep(Duration::from_millis(5));
    }
    if let Some(e) = fail.lock().unwrap().take() {
        return Err(e);
    }
    let s = quiesce(&b)?;
    ensure!(
        s.compilations_dispatched == s.compilations_succeeded + s.compilations_failed,
        d,
        "after killing the helper: {} jobs, {} + {} ended",
        s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed
    );
    // Recovers. A helper killed while idle is only noticed at the next job, so allow a few tries.
    let cleared = r.chance(30);
    if cleared {
        b.clear_resident();
    }
    let mut last = None;
    for (try_, it) in fresh.iter().enumerate() {
        match bounded_lookup(&b, it)? {
            LookupDecision::Compiled(p) => {
                observe(it, &p, &mut rt.gs)?;
                last = Some(try_);
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    }
    // With the shortest time limit of the stopped variant a busy machine may time out.
    let short = cfg.tuning.jit_timeout < Duration::from_secs(1);
    ensure!(last.is_some() || short, d, "the service does not recover from the loss of its helper: {:?}", b.stats());
    st.evals += done.load(SeqCst);
    st.count("helper:kills", kills);
    st.count("helper:answers_under_kills", done.load(SeqCst));
    st.count("helper:failed_jobs", s.compilations_failed);
    st.nontrivial(r.u64());
    ends(b, "with its helper killed")?;
    no_threads_left()?;
    no_children_left()
}

/// Paused: nothing is compiled, everything resident is served; resumed: everything pending ends.
fn helper_pause(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let mut cfg = helper_config(r);
    let its = Arc::new(items(r, 5));
    if r.chance(50) {
        // Shorter than the pauses: time spent paused does not count.
        cfg.tuning.jit_timeout = Duration::from_millis(400);
    }
    let short = cfg.tuning.jit_timeout < Duration::from_secs(1);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let warm = r.chance(70);
    if warm {
        match bounded_lookup(&b, &its[0])? {
            LookupDecision::Compiled(p) => observe(&its[0], &p, &mut rt.gs)?,
            x if short => {
                st.count("helper:slow", 1);
                let _ = x;
                return ends(b, "");
            }
            x => return Err(v(format!("out of process, a blocking lookup answered {x:?}"), d)),
        }
    }
    for round in 0..r.range(1, 3) {
        let depth = r.range(1, 3);
        for _ in 0..depth {
            b.pause();
        }
        // The pause has been carried out once a later command was processed.
        barrier(&b)?;
        ensure!(b.is_paused(), d, "not paused after {depth} pauses");
        let before = b.stats();
        for it in its.iter().skip(1) {
            b.compile_jit(it.req());
        }
        barrier(&b)?;
        std::thread::sleep(Duration::from_millis(if short { 900 } else { 150 }));
        let s = b.stats();
        ensure!(
            s.compilations_succeeded == before.compilations_succeeded && s.compilations_failed == before.compilations_failed,
            d,
            "while paused, {} compilations succeeded and {} failed",
            s.compilations_succeeded - before.compilations_succeeded,
            s.compilations_failed - before.compilations_failed
        );
        if warm && round == 0 {
            match b.lookup(its[0].req()) {
                LookupDecision::Compiled(p) => observe(&its[0], &p, &mut rt.gs)?,
                x => return Err(v(format!("while paused, a resident program is answered {x:?}"), d)),
            }
        }
        for i in 0..depth {
            ensure!(b.is_paused(), d, "{i} resumes ended {depth} pauses");
            b.resume();
        }
        ensure!(!b.is_paused(), d, "still paused after as many resumes as pauses");
        let s = quiesce(&b)?;
        ensure!(s.compilations_failed == 0 || short, d, "compilations failed because of a pause: {s:?}");
        for it in its.iter().skip(1) {
            match b.get_compiled(it.key.code_hash, it.key.spec_id) {
                Some(p) => observe(it, &p, &mut rt.gs)?,
                None => ensure!(short, d, "a compilation requested while paused was lost"),
            }
        }
        b.clear_resident();
        quiesce(&b)?;
        st.count("helper:pauses", depth as u64);
        if round > 0 || !warm {
            continue;
        }
    }
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()?;
    no_children_left()
}

/// A helper without enough memory, or without enough time, fails its jobs; nothing else.
fn helper_limits(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let mut cfg = helper_config(r);
    let its = Arc::new(items(r, 4));
    match r.below(3) {
        0 => cfg.tuning.jit_helper_memory_limit_bytes = *r.pick(&[1 << 20, 50 << 20, 200 << 20, 8 << 30]),
        1 => cfg.tuning.jit_timeout = Duration::from_millis(*r.pick(&[0, 1, 5, 30])),
        _ => {
            cfg.jit_helper_path = Some(PathBuf::from(*r.pick(&["/bin/true", "/bin/cat", "/bin/false", "/nonexistent/helper"])));
            cfg.tuning.jit_timeout = Duration::from_millis(500);
        }
    }
    let events = record(&mut cfg);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let mut ok = 0u64;
    for it in its.iter() {
        match bounded_lookup(&b, it)? {
            LookupDecision::Compiled(p) => {
                observe(it, &p, &mut rt.gs)?;
                ok += 1;
            }
            LookupDecision::Interpret(InterpretReason::JitFailed) => {}
            x => return Err(v(format!("with a crippled helper, a blocking lookup answered {x:?}"), d)),
        }
    }
    let s = quiesce(&b)?;
    ensure!(
        s.compilations_succeeded == ok && s.compilations_succeeded + s.compilations_failed == s.compilations_dispatched && s.compilations_dispatched == its.len() as u64,
        d,
        "{ok} of {} programs delivered: {s:?}",
        its.len()
    );
    let ev = events.0.lock().unwrap().clone();
    ensure!(ev.len() == its.len() && ev.iter().filter(|e| e.3).count() as u64 == ok, d, "{} compilation events, {} successes; {ok} programs delivered", ev.len(), ev.iter().filter(|e| e.3).count());
    st.count("helper:crippled_ok", ok);
    st.count("helper:crippled_failed", its.len() as u64 - ok);
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "with a crippled helper")?;
    no_threads_left()?;
    no_children_left()
}

fn own_cpus() -> Vec<usize> {
    unsafe {
        let mut m = std::mem::zeroed::<libc::cpu_set_t>();
        libc::sched_getaffinity(0, std::mem::size_of_val(&m), &mut m);
        (0..8 * std::mem::size_of_val(&m)).filter(|c| libc::CPU_ISSET(*c, &m)).collect()
    }
}

fn cpu_list(s: &str) -> Vec<usize> {
    s.trim()
        .split(',')
        .flat_map(|p| {
            let (a, b) = p.split_once('-').unwrap_or((p, p));
            a.parse::<usize>().unwrap_or(0)..=b.parse::<usize>().unwrap_or(0)
        })
        .collect()
}

/// Every setting reaches the helper: the same programs as in process, failure reasons included,
/// the same dumps, and the configured limits on the process.
fn helper_settings(rt: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let mut cfg = helper_config(r);
    cfg.tuning.jit_worker_count = 1;
    cfg.tuning.jit_opt_level = *r.pick(&[OptimizationLevel::None, OptimizationLevel::Less, OptimizationLevel::Default, OptimizationLevel::Aggressive]);
    let mem = *r.pick(&[0u64, 64 << 30, 200 << 30, (100 << 30) + 4096]);
    let cpus = *r.pick(&[0usize, 0, 1, 2, 3, 64]);
    cfg.tuning.jit_helper_memory_limit_bytes = mem;
    cfg.tuning.jit_helper_cpu_count = cpus;
    let scratch = tempfile::tempdir_in(crate::fw::scratch()).unwrap();
    let dumps = [scratch.path().join("helper"), scratch.path().join("inside")];
    let dump = r.chance(60);
    let its: Vec<Arc<Item>> = items(r, 3).into_iter().chain(failing_items(r, 4)).collect();
    let d = json!({"config": format!("{cfg:?}")});
    let mut progs: Vec<Vec<Arc<CompiledProgram>>> = vec![];
    let mut backs = vec![];
    for (k, mode) in [JitMode::OutOfProcess, JitMode::InProcess].into_iter().enumerate() {
        let mut c = cfg.clone();
        c.jit_mode = mode;
        if dump {
            c.dump_dir = Some(dumps[k].clone());
        }
        let b = start(&c)?;
        let mut ps = vec![];
        for it in &its {
            match bounded_lookup(&b, it)? {
                LookupDecision::Compiled(p) => {
                    observe_with(it, &p, &mut rt.gs, !cfg.single_error)?;
                    ps.push(p);
                }
                x => return Err(v(format!("a blocking lookup answered {x:?}"), json!({"contract": it.describe(), "config": d, "stats": format!("{:?}", b.stats())}))),
            }
        }
        if k == 0 {
            let cs = children();
            ensure!(cs.len() == 1, d, "{} helper processes for one worker", cs.len());
            let c = cs[0];
            if let Ok(l) = std::fs::read_to_string(format!("/proc/{c}/limits")) {
                let soft = l.lines().find(|l| l.starts_with("Max address space")).and_then(|l| l.split_whitespace().nth(3)).unwrap_or("?");
                let own = std::fs::read_to_string("/proc/self/limits").unwrap();
                let own = own.lines().find(|l| l.starts_with("Max address space")).and_then(|l| l.split_whitespace().nth(3)).unwrap_or("?").to_string();
                let want = if mem == 0 { own } else { mem.to_string() };
                ensure!(soft == want, d, "memory limit {mem}: the helper's is {soft}, not {want}");
            }
            if let Ok(s) = std::fs::read_to_string(format!("/proc/{c}/status")) {
                let got = cpu_list(s.lines().find_map(|l| l.strip_prefix("Cpus_allowed_list:")).unwrap_or(""));
                let mut want = own_cpus();
                if cpus > 0 {
                    want.truncate(cpus);
                }
                ensure!(got == want, d, "a helper limited to {cpus} CPUs (0: no limit) runs on {got:?}, not {want:?}");
            }
            st.count("helper:limits_read", 1);
        }
        progs.push(ps);
        backs.push(b);
    }
    for (k, it) in its.iter().enumerate() {
        let [a, b] = [0, 1].map(|m| crate::exec::run_jit(&it.world, &it.bc, it.gas, progs[m][k].func, crate::exec::Mode::Wrapper, &mut rt.gs));
        ensure!(a.result == b.result, json!({"contract": it.describe(), "config": d}), "the helper's program ends in {:?}, the one compiled in process in {:?}", a.result, b.result);
        st.count(format!("helper:verdict:{:?}", a.result), 1);
    }
    if dump {
        let files = |root: &PathBuf| -> Result<BTreeMap<String, Vec<u8>>, Violation> {
            let mut m = BTreeMap::new();
            let mut todo = vec![root.clone()];
            while let Some(p) = todo.pop() {
                for e in std::fs::read_dir(&p).map_err(|e| v(format!("no dump directory {}: {e}", p.display()), json!({"config": d})))?.flatten() {
                    if e.path().is_dir() {
                        todo.push(e.path());
                    } else {
                        m.insert(e.path().strip_prefix(root).unwrap().display().to_string(), std::fs::read(e.path()).unwrap());
                    }
                }
            }
            Ok(m)
        };
        let [a, b] = [files(&dumps[0])?, files(&dumps[1])?];
        let (ka, kb): (Vec<_>, Vec<_>) = (a.keys().collect(), b.keys().collect());
        ensure!(ka == kb, d, "the helper dumps {ka:?}, in process {kb:?}");
        for (n, x) in &a {
            if n.contains("/bytecode.") {
                ensure!(*x == b[n], d, "the helper's {n} is not the one dumped in process");
                st.count("helper:dumps_compared", 1);
            }
            // The optimisation level, which the assembly's producer note names.
            let producer = |b: &[u8]| String::from_utf8_lossy(b).split_once("\"revmc -O").map(|x| x.1.chars().take(1).collect::<String>());
            if n.ends_with(".s") {
                ensure!(producer(x) == producer(&b[n]), d, "{n}: the helper optimised at {:?}, in process {:?}", producer(x), producer(&b[n]));
            }
        }
    }
    for b in backs {
        ends(b, "with limits")?;
    }
    st.evals += its.len() as u64;
    st.nontrivial(r.u64());
    no_threads_left()?;
    no_children_left()
}

/// Failing compilations are counted, reported, and can be retried.
fn broken_helper(_: &mut Rt, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
    let its = items(r, 3);
    let mut cfg = helper_config(r);
    let t = *r.pick(&[1usize, 2, 3]);
    cfg.tuning.jit_hot_threshold = t;
    cfg.jit_helper_path = Some("/nonexistent/helper".into());
    let events = record(&mut cfg);
    let b = start(&cfg)?;
    let d = json!({"config": format!("{cfg:?}")});
    let (mut jobs, mut misses, mut hot) = (0u64, 0u64, [0usize; 3]);
    for _ in 0..r.range(5, 30) {
        let k = r.below(3);
        match r.below(3) {
            0 => {
                let x = blocking_lookup(&b, its[k].req())?;
                ensure!(matches!(x, LookupDecision::Interpret(InterpretReason::JitFailed)), d, "a failing compilation is answered {x:?}");
                jobs += 1;
                misses += 2;
                hot[k] = 0;
            }
            1 => {
                let _ = b.lookup(its[k].req());
                misses += 1;
                hot[k] += 1;
                if hot[k] >= t {
                    jobs += 1;
                    hot[k] = 0;
                }
            }
            _ => {
                b.compile_jit(its[k].req());
                jobs += 1;
                hot[k] = 0;
            }
        }
        let s = quiesce(&b)?;
        let got = (s.compilations_dispatched, s.compilations_failed, s.compilations_succeeded, s.lookup_misses, s.lookup_hits, s.resident_entries, s.jit_helper_spawn_failures);
        let want = (jobs, jobs, 0, misses, 0, 0, jobs);
        ensure!(got == want, d, "with a helper that cannot start, (dispatched, failed, succeeded, misses, hits, resident, spawn failures) are {got:?}, not {want:?}");
        let ev = events.0.lock().unwrap();
        ensure!(ev.len() as u64 == jobs && ev.iter().all(|e| !e.3), d, "{} compilation events for {jobs} failed jobs", ev.len());
    }
    st.count("stats:failed_jobs", jobs);
    st.evals += 1;
    st.nontrivial(r.u64());
    ends(b, "")?;
    no_threads_left()
}

#[allow(dead_code)]
fn _u(_: &GasParams, _: Value) {}
