mod asmck;
mod diff;
mod engine;
mod env;
mod exec;
mod fence;
mod fw;
mod gen_;
mod rng;
mod rt;
mod rt2;
mod sess;
#[cfg(feature = "st")]
mod st;
#[cfg(feature = "st")]
mod cli;
mod txs;

use fw::{Check, Plan};
use std::time::Duration;

fn focus(prop: &str) -> Option<diff::Focus> {
    use diff::Focus;
    Some(match prop {
        "C01" => Focus::General,
        "C02" => Focus::Gas,
        "C03" => Focus::Host,
        "C04" => Focus::Suspend,
        "C05" => Focus::Control,
        "C06" => Focus::Bounds,
        "C07" => Focus::Memory,
        "C08" => Focus::Schedule,
        "C09" => Focus::Arith,
        _ => return None,
    })
}

fn make(prop: &str) -> Box<dyn Check> {
    if let Some(f) = focus(prop) {
        fence::ALL.store(prop == "C06", std::sync::atomic::Ordering::Relaxed);
        return Box::new(diff::Diff::new(f));
    }
    match prop {
        "C10" => Box::new(sess::Totality::new()),
        "C11" => Box::new(sess::Configs::new()),
        "C12" => Box::new(sess::Sessions::new()),
        "C13" => Box::new(asmck::Asm::new()),
        "C14" => Box::new(txs::Txs::new(false)),
        "C15" => Box::new(txs::Txs::new(true)),
        "C16" => Box::new(rt::Rt::new(rt::RtFocus::Right)),
        "C17" => Box::new(rt::Rt::new(rt::RtFocus::Live)),
        "C18" => Box::new(rt::Rt::new(rt::RtFocus::Policy)),
        "C19" => Box::new(rt::Rt::new(rt::RtFocus::Stats)),
        "C20" => Box::new(rt::Rt::new(rt::RtFocus::Aot)),
        "C21" => Box::new(rt::Rt::new(rt::RtFocus::Helper)),
        #[cfg(feature = "st")]
        "C22" => Box::new(st::Tools::new()),
        #[cfg(feature = "st")]
        "C23" => Box::new(cli::Cli::new()),
        _ => panic!("unknown property {prop}"),
    }
}

const RULE_DIFF: &str = "A case is a generated program (straight-line, structured control flow, deep \
stack, byte noise or mutant), a fork, a compiler configuration and a world; it is compiled by the \
real compiler and its native code is run in lock step with the interpreter, through several worlds \
and gas limits. Non-trivial: the reference run spent gas and did not end in an error, and the \
(program, world, calldata) triple is new.";

fn plan(prop: &str) -> Plan {
    let thorough = fw::tier() == "thorough";
    let mut p = Plan {
        cases: if thorough { 400_000 } else { 16_000 },
        cap: Duration::from_secs(if thorough { 600 } else { 50 }),
        workers: 8,
        stuck: Duration::from_secs(60),
        level: "exploration",
        rule: RULE_DIFF,
        assumptions: vec![
            "revm's interpreter and gas tables, at the version the repository pins, are the reference",
            "the LLVM C API comes from the installed Rust toolchain's LLVM 22.1; the 364-line C++ glue \
             (crates/revmc-llvm/cpp/lib.cpp) is replaced by a stand-in, as no LLVM 22 headers exist here",
        ],
        must: vec!["programs_compiled", "result:Stop", "result:Return"],
    };
    match prop {
        "C02" => p.must.extend(["sweep:halt", "sweep:ok"]),
        "C03" => p.must.extend(["host:sload", "host:sstore", "host:tload", "host:log", "host:account", "host:selfdestruct"]),
        "C04" => p.must.push("suspensions"),
        "C05" => p.must.extend(["op:56", "op:57", "result:InvalidJump"]),
        "C06" => p.must.extend(["result:StackUnderflow", "result:StackOverflow", "fence:blocks moved"]),
        "C07" => p.must.extend(["op:53", "op:52", "op:51"]),
        "C08" => p.must.extend(["systematic_opcode_fork_pairs", "result:OpcodeNotFound", "result:NotActivated"]),
        _ => {}
    }
    let sess: Option<(&str, Vec<&str>)> = match prop {
        "C10" => Some((
            "A case is a bytecode (bytes, noise, mutants, or one of 22 families built to make a compiler work hard, up to \
             the deployment limit) with a fork and a configuration: it is analysed, listed, compiled and run, each under \
             a bound on CPU time relative to an ordinary program on the same machine; or a chain of computed jumps under a \
             compile-time evaluation budget; or a batch at the highest optimization level in a process of its own. \
             Non-trivial: distinct programs compiled and run.",
            vec!["compiled", "budget_exhausted", "budget_resolved", "input:noise", "input:shared subroutine", "input:diamonds", "opt:3"],
        )),
        "C11" => Some((
            "A case is a program compiled under several optimization levels and random settings, with dumps, without gas \
             metering or stack checks, or ahead of time into objects that are linked and loaded; every variant is run and \
             compared with the interpreter. Non-trivial: distinct programs whose run did not end in an error.",
            vec!["opt:0", "opt:1", "opt:2", "dumps", "aot_functions", "unmetered", "unchecked_stack"],
        )),
        "C12" => Some((
            "A case is a random life of one compiler (translate, jit, clear_ir, free, clear, reconfigure, write objects, \
             misuse), several compilers in threads, or the first moments of a process in which eight threads compile at \
             once with injected delays; every function alive is run and compared with the interpreter. Non-trivial: \
             distinct programs run while held across other operations.",
            vec!["sessions", "parallel_sessions", "cold_starts", "runs_after_clear_ir", "freed", "clear", "duplicate_names_refused", "refused_after_finalizing", "misuse"],
        )),
        "C14" => Some((
            "A case is a chain of transactions, system calls, replays, block and fork changes over six contracts that call, \
             create, delegate to and destroy each other (with database failures in some), run by a plain EVM and by one of \
             the EVMs that dispatch to compiled code (blocking or background service, several EVMs in threads over one \
             service being cleared, alloy's, a map of functions, compiling on a miss); results and states are compared after \
             each step. Non-trivial: distinct scenes in which a transaction succeeded.",
            vec!["blocking service", "background service", "alloy", "crowds", "a map of functions", "compiling on a miss", "dispatch", "switches",
                "tx:success", "tx:revert", "tx:halt", "tx:database_error", "tx:invalid", "programs_compiled", "lookup_hits"],
        )),
        "C15" => Some((
            "A case is as for C14, most steps being watched by an inspector that records every callback and interferes with \
             some calls and creations; the callbacks are compared frame by frame with those of a plain inspected EVM. \
             Non-trivial: distinct scenes in which a transaction succeeded.",
            vec!["callbacks:frame", "callbacks:end", "callbacks:failed_end", "callbacks:log", "callbacks:selfdestruct", "callbacks:initialize",
                "meddled", "blocking service", "alloy", "a map of functions", "compiling on a miss", "dispatch", "tx:success"],
        )),
        _ => None,
    };
    if let Some((rule, must)) = sess {
        p.rule = rule;
        p.must = must;
        p.cases = if thorough { 400_000 } else { 12_000 };
        p.workers = if prop == "C12" { 6 } else { 8 };
        p.stuck = Duration::from_secs(300);
    }
    if prop == "C13" {
        p.cases = if thorough { 20_000_000 } else { 400_000 };
        p.cap = Duration::from_secs(if thorough { 600 } else { 30 });
        p.rule = "A case is a generated list of instructions, labels and macros rendered as random source text and \
             compared with a reference encoder, a source that must be refused, text noise, or byte noise whose \
             disassembly is compared with a reference walk and reassembled. Non-trivial: a source that assembled, \
             or a non-empty code that was disassembled; distinct by text or bytes. The first 256 cases enumerate all \
             EIP-8024 immediates.";
        p.assumptions = vec!["mnemonics are those of revm's opcode table; EIP-8024 immediates are as that EIP specifies them"];
        p.must = vec!["immediate_values", "asm:ok", "asm:refused", "asm:function_macros", "asm:object_macros", "asm:ret_word",
            "noise:assembled", "round_trips", "listing_lines", "disassembled_instructions", "bad:undefined label", "bad:malformed call"];
    }
    if let Some((rule, must)) = rt_plan(prop) {
        p.rule = rule;
        p.must = must;
        p.cases = if thorough { 400_000 } else { 6_000 };
        p.workers = 6;
        p.stuck = Duration::from_secs(150);
        p.assumptions.push(
            "schedules are sampled: thread interleavings come from random operation mixes, random delays, \
             tiny queues and several drain and sweep intervals, not from enumeration",
        );
    }
    if let Some(t) = std::env::var("VH_CAP").ok().and_then(|t| t.parse().ok()) {
        p.cap = Duration::from_secs(t);
    }
    p
}

fn rt_plan(prop: &str) -> Option<(&'static str, Vec<&'static str>)> {
    Some(match prop {
        "C16" => (
            "A case is one life of the compilation service: random configuration, a set of contracts (near-identical \
             codes, the same code at several forks, generated programs), and either a storm of random operations from \
             several threads, a scripted history, requests followed by clears, or recompilation of contracts still in \
             use. Every program handed out is run and compared with the interpreter. Non-trivial: the service compiled \
             and handed out programs; distinct by scenario and final counters.",
            vec!["scenario:storm", "scenario:script", "scenario:stale", "scenario:recompile", "rt:hits", "rt:held_runs", "rt:runs_after_shutdown", "rt:evictions"],
        ),
        "C17" => (
            "A case is one life of the service under adverse conditions: tiny queues, operations before it is started, \
             a start that fails, a held-up service thread, drops with jobs in flight, waiters racing clears. Every call \
             is timed by a watchdog; threads and child processes are counted after the last handle is dropped. \
             Non-trivial: distinct scenario seeds.",
            vec!["scenario:storm", "scenario:unstarted", "scenario:gate", "scenario:drop-in-flight", "scenario:waiters", "scenario:failing-start", "waiters:clears"],
        ),
        "C18" => (
            "A case is a scripted history checked against an exact sequential model of the admission policy, or a \
             scenario around one limit: hotness threshold, code size, idle eviction, memory budget, jobs in flight, \
             environment overrides. Non-trivial: distinct histories and scenario seeds.",
            vec!["script:steps", "script:compilations", "threshold:exact", "limits:lengths", "idle:kept_and_evicted", "budget:evictions", "scenario:pending-cap", "env:cases"],
        ),
        "C19" => (
            "A case is a scripted history whose counters and compilation events must equal a sequential model's after \
             every step, or a concurrent storm whose totals must balance at rest. Non-trivial: distinct histories and \
             final counters.",
            vec!["script:steps", "rt:compilations", "rt:misses", "stats:failed_jobs", "gate:lookups_while_busy"],
        ),
        "C20" => (
            "A case is a random history of the artifact store against a map, a concurrent history, or one or two \
             services preparing, preloading, overwriting and clearing artifacts over a store with injected faults; \
             every program loaded is run and compared with the interpreter. Non-trivial: distinct histories.",
            vec!["store:ops", "store:concurrent_reads", "aot:preloaded", "aot:runs_after_overwrite", "aot:runs_after_shutdown", "fault:5", "scenario:shared"],
        ),
        "C21" => (
            "A case is one life of the service with its compiler in a helper process: programs with default and custom \
             gas schedules, helpers killed, stopped, starved of memory or time, replaced by other executables, paused \
             and resumed. Every program delivered is run and compared with the interpreter. Non-trivial: distinct seeds.",
            vec!["helper:programs", "helper:kills", "helper:failed_jobs", "helper:pauses", "helper:crippled_failed"],
        ),
        "C22" => (
            "A case is a set of generated state-test files, some with falsified expectations, given to the runner (in each \
             mode, with several threads and one, stopping or going on) or to the differ (with filters), in half of them with \
             a compiler that turns XOR into OR; or the snapshots and comparisons the differ is made of. Verdicts are compared \
             with those computed from plain executions, a trie and an RLP encoder of our own. Non-trivial: distinct cases.",
            vec![
                "tests:executed", "tests:rejected", "lie:state", "lie:logs", "lie:exception", "runner:jit:accepted", "runner:jit:refused",
                "runner:aot:accepted", "runner:interpreter:accepted", "bent:shown", "differ:mismatch", "differ:agree", "diff:logs_root",
                "diff:gas_used", "diff:state_root", "diff:output", "diff:status", "snapshots:compared",
            ],
        ),
        "C23" => (
            "A case is a batch of texts and files for the readers; a call of `revmc run` that lists, compiles ahead of time or \
             compares code given in one of nine notations, at any fork, with any flags, in a third of them with a compiler that \
             turns XOR into OR; generated transaction fixtures; or a built-in benchmark. What inputs denote is known because they \
             are written from bytes; executions are judged by a plain revm. Non-trivial: distinct cases.",
            vec![
                "read:prefixed hex", "read:assembly", "read:raw without extension", "read:bad hex", "listings", "aot:ran_ok", "aot:ran_error",
                "verdict:agree", "verdict:differ", "fixture:ok", "fixture:failed", "refused", "bench:weth", "input:inline asm", "input:dump directory",
                "input:bin file", "input:hex file", "input:evm file",
            ],
        ),
        _ => return None,
    })
}

fn main() {
    // Launched as the service's own compilation helper.
    match revmc::runtime::maybe_run_jit_helper() {
        Ok(c) if c.is_break() => return,
        Ok(_) => {}
        Err(e) => {
            eprintln!("helper: {e}");
            std::process::exit(3);
        }
    }
    fw::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => fw::check(&a[2], &plan(&a[2])),
        Some("worker") => fw::worker(
            &a[2],
            make(&a[2]),
            a[3].parse().unwrap(),
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            a[6].parse().unwrap(),
            std::path::Path::new(&a[7]),
        ),
        Some("coldstart") => sess::coldstart_main(a[2].parse().unwrap()),
        #[cfg(feature = "st")]
        Some("st-run") => st::run_main(&a[2..]),
        Some("opt3") => sess::opt3_main(a[2].parse().unwrap()),
        Some("try") => try_one(&a[2], &a[3], &a[4..]),
        Some("show") => {
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let p = v["property"].as_str().unwrap();
            let s = fw::case_seed(p, v["verif_seed"].as_u64().unwrap(), v["index"].as_u64().unwrap());
            let c = diff::Diff::new(focus(p).unwrap()).make_at(v["index"].as_u64().unwrap(), s, &mut fw::Stats::default());
            println!("{}", serde_json::to_string_pretty(&c.describe(c.gas, exec::Mode::Wrapper)).unwrap());
            0
        }
        Some("shrink") => shrink(&a[2]),
        Some("replay") => fw::replay(std::path::Path::new(&a[2]), make),
        _ => {
            eprintln!("usage: vh check|replay ...");
            2
        }
    };
    std::process::exit(code);
}

/// Ad-hoc differential run: `vh try SPEC HEX [gas=N] [opt=N] [static] [inspect]`.
fn try_one(spec: &str, code: &str, rest: &[String]) -> i32 {
    use revm_primitives::{Bytes, hex};
    let spec = *gen_::SPECS.iter().find(|s| format!("{s:?}") == spec).expect("spec");
    let code = hex::decode(code).unwrap();
    let mut r = rng::Rng::new(1);
    let mut world = env::World::random(&mut r, spec);
    let mut cfg = engine::Cfg::default_release();
    cfg.single_error = false;
    let mut gas = 1_000_000u64;
    for o in rest {
        match o.split_once('=').unwrap_or((o, "")) {
            ("gas", v) => gas = v.parse().unwrap(),
            ("opt", v) => cfg.opt = v.parse().unwrap(),
            ("cg", v) => cfg.compiler_gas = v.parse().unwrap(),
            ("data", v) => world.calldata = hex::decode(v).unwrap(),
            ("static", _) => world.is_static = true,
            ("inspect", _) => cfg.inspect_stack = true,
            ("nodse", _) => cfg.dse = false,
            ("nodedup", _) => cfg.dedup = false,
            ("single", _) => cfg.single_error = true,
            ("dump", v) => unsafe { std::env::set_var("VH_DUMP", v) },
            x => panic!("{x:?}"),
        }
    }
    let bc = revm_bytecode::Bytecode::new_legacy(Bytes::from(code.clone()));
    let e = exec::run_interp(&world, &bc, gas, None);
    println!("interp: {:?} {:#?}", e.result, e.segs.last());
    let mut eng = engine::Engine::new();
    let f = match eng.compile(&code, spec, &cfg, None) {
        Ok(f) => f,
        Err(e) => {
            println!("compile: {e}");
            return 1;
        }
    };
    for mode in [exec::Mode::Wrapper, exec::Mode::Guarded] {
        let g = exec::run_jit(&world, &bc, gas, f, mode, &mut eng.gs);
        println!("{mode:?}: {:?} {:#?}", g.result, g.segs.last());
        let o = exec::CmpOpts { final_stack: cfg.inspect_stack, reasons: !cfg.single_error };
        println!("{:?}", exec::compare(&e, &g, o));
    }
    0
}

/// Shrinks the code of a differential replay file (debugging aid).
fn shrink(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let index = v["index"].as_u64().unwrap();
    let seed = fw::case_seed(prop, v["verif_seed"].as_u64().unwrap(), index);
    let mut d = diff::Diff::new(focus(prop).unwrap());
    let mut c = d.make_at(index, seed, &mut fw::Stats::default());
    let mut fails = |c: &diff::Case| -> Option<String> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut r = rng::Rng::new(seed ^ 0x77);
            d.run_full(c, &mut r, &mut fw::Stats::default())
        }));
        match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e.what),
            Err(_) => {
                d = diff::Diff::new(focus(prop).unwrap());
                Some(format!("panic {}", fw::LAST_PANIC.with(|l| l.borrow().clone())))
            }
        }
    };
    let first = fails(&c).expect("does not fail");
    let class = |s: &str| s.chars().filter(|c| !c.is_ascii_digit()).take(80).collect::<String>();
    let want = class(&first);
    println!("{first}");
    let mut n = c.code.len() / 2;
    while n >= 1 {
        let mut i = 0;
        let mut any = false;
        while i < c.code.len() {
            let old = c.code.clone();
            let e = (i + n).min(c.code.len());
            c.code.drain(i..e);
            if fails(&c).is_some_and(|w| class(&w) == want) {
                any = true;
            } else {
                c.code = old;
                i += n;
            }
        }
        if !any || n > 1 {
            if n == 1 {
                break;
            }
            n /= 2;
        }
    }
    let mut n = c.code.len() / 2;
    while n >= 1 {
        for i in (0..c.code.len()).step_by(n) {
            let old = c.code.clone();
            let e = (i + n).min(c.code.len());
            c.code[i..e].fill(0x5b);
            if c.code == old || !fails(&c).is_some_and(|w| class(&w) == want) {
                c.code = old;
            }
        }
        n /= 2;
    }
    println!("{}", fails(&c).unwrap());
    println!("{}", serde_json::to_string_pretty(&c.describe(c.gas, exec::Mode::Wrapper)).unwrap());
    0
}
