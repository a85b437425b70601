//! Runs bytecode through the interpreter and through revmc's native code and compares.
//! `demo SPEC HEX [gas=N] [opt=N] [data=HEX] [static] [inspect] [world=N] ...`; exit 1 on a difference.
#![allow(dead_code)]
mod env;
mod exec;
mod rng;
use revm_primitives::{Bytes, hardfork::SpecId, hex};
use revmc::{EvmCompiler, OptimizationLevel};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let spec: SpecId = a[1].parse().unwrap_or_else(|_| panic!("spec {}", a[1]));
    let code = hex::decode(&a[2]).unwrap();
    let mut gas = 1_000_000u64;
    let mut wseed = 1u64;
    for o in &a[3..] {
        if let Some(v) = o.strip_prefix("world=") {
            wseed = v.parse().unwrap();
        }
    }
    let mut world = env::World::random(&mut rng::Rng::new(wseed), spec);
    world.is_static = false;
    let mut c = EvmCompiler::new_llvm(false).unwrap();
    let mut inspect = false;
    let mut reasons = false;
    c.set_opt_level(OptimizationLevel::Default);
    c.debug_assertions(false);
    for o in &a[3..] {
        match o.split_once('=').unwrap_or((o, "")) {
            ("gas", v) => gas = v.parse().unwrap(),
            ("opt", v) => c.set_opt_level(v.parse().unwrap()),
            ("cg", v) => c.set_compiler_gas_limit(v.parse().unwrap()),
            ("data", v) => world.calldata = hex::decode(v).unwrap(),
            ("ret", v) => world.return_data = hex::decode(v).unwrap(),
            ("static", _) => world.is_static = true,
            ("inspect", _) => inspect = true,
            ("reasons", _) => reasons = true,
            ("nodse", _) => c.set_dse(false),
            ("nodedup", _) => c.set_dedup(false),
            ("world", _) => {}
            x => panic!("{x:?}"),
        }
    }
    c.inspect_stack(inspect);
    c.single_error(!reasons);
    let bc = revm_bytecode::Bytecode::new_legacy(Bytes::from(code.clone()));
    let e = exec::run_interp(&world, &bc, gas, None);
    let f = unsafe { c.jit("f", &code[..], spec) }.expect("compile");
    let mut gs = exec::GuardedStack::new(true);
    let mut bad = false;
    for mode in [exec::Mode::Wrapper, exec::Mode::Guarded] {
        let g = exec::run_jit(&world, &bc, gas, f, mode, &mut gs);
        if let Err(d) = exec::compare(&e, &g, exec::CmpOpts { final_stack: inspect, reasons }) {
            println!("{mode:?}: {d}\ninterpreter: {:?} {:?}\ncompiled: {:?} {:?}", e.result, e.segs.last(), g.result, g.segs.last());
            bad = true;
        }
    }
    std::process::exit(bad as i32);
}
