//! Compiler wrapper: configurations and compiled functions.
use crate::{exec::GuardedStack, rng::Rng};
use revm_context_interface::cfg::GasParams;
use revm_primitives::hardfork::SpecId;
use revmc::{EvmCompiler, EvmCompilerFn, EvmLlvmBackend, OptimizationLevel};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub opt: u8,
    pub dedup: bool,
    pub dse: bool,
    pub inspect_stack: bool,
    pub compiler_gas: u64,
    pub debug_assertions: bool,
    pub single_error: bool,
    pub frame_pointers: bool,
}

impl Cfg {
    /// What the library ships with in release builds.
    pub fn default_release() -> Self {
        Self {
            opt: 2,
            dedup: true,
            dse: true,
            inspect_stack: false,
            compiler_gas: 100_000,
            debug_assertions: false,
            single_error: true,
            frame_pointers: false,
        }
    }
    pub fn random(r: &mut Rng) -> Self {
        Self {
            opt: *r.pick(&[0, 0, 0, 1, 2, 2]),
            dedup: r.chance(80),
            dse: r.chance(80),
            inspect_stack: r.chance(50),
            compiler_gas: *r.pick(&[100_000, 100_000, 100_000, u64::MAX, 0, 50, 1000]),
            debug_assertions: r.chance(30),
            single_error: r.chance(50),
            frame_pointers: r.chance(30),
        }
    }
    /// Cheap to compile, everything observable.
    pub fn observing(r: &mut Rng) -> Self {
        let mut c = Self::random(r);
        c.single_error = r.chance(15);
        c.inspect_stack = r.chance(65);
        c
    }
}

pub fn opt_level(o: u8) -> OptimizationLevel {
    match o {
        0 => OptimizationLevel::None,
        1 => OptimizationLevel::Less,
        2 => OptimizationLevel::Default,
        _ => OptimizationLevel::Aggressive,
    }
}

pub fn new_compiler() -> EvmCompiler<EvmLlvmBackend> {
    let mut c = EvmCompiler::new_llvm(false).unwrap();
    watch_llvm();
    c.set_debug_support(false);
    c.set_simple_perf(false);
    c.set_profiling_support(false);
    c
}

pub fn apply(c: &mut EvmCompiler<EvmLlvmBackend>, cfg: &Cfg) {
    c.set_opt_level(opt_level(cfg.opt));
    c.set_dedup(cfg.dedup);
    c.set_dse(cfg.dse);
    c.inspect_stack(cfg.inspect_stack);
    c.set_compiler_gas_limit(cfg.compiler_gas);
    c.debug_assertions(cfg.debug_assertions);
    c.single_error(cfg.single_error);
    c.frame_pointers(cfg.frame_pointers);
}

pub struct Engine {
    std: EvmCompiler<EvmLlvmBackend>,
    custom: Option<EvmCompiler<EvmLlvmBackend>>,
    pub gs: GuardedStack,
    pub compiled: u64,
}

impl Engine {
    pub fn new() -> Self {
        Self { std: new_compiler(), custom: None, gs: GuardedStack::new(true), compiled: 0 }
    }

    /// Compiles; the function stays valid until `release`.
    pub fn compile(
        &mut self,
        code: &[u8],
        spec: SpecId,
        cfg: &Cfg,
        gas: Option<&GasParams>,
    ) -> Result<EvmCompilerFn, String> {
        self.compiled += 1;
        let c = match gas {
            None => &mut self.std,
            Some(g) => {
                let c = self.custom.get_or_insert_with(new_compiler);
                c.set_gas_params(g.clone());
                c
            }
        };
        apply(c, cfg);
        crate::fw::set_tag(&format!("opt={}", cfg.opt));
        if let Some(d) = std::env::var_os("VH_DUMP") {
            c.set_dump_to(Some(d.into()));
        }
        // Several functions of one engine may be alive: every one gets its own module.
        c.clear_ir().map_err(|e| format!("clear_ir: {e}"))?;
        unsafe { c.jit(&format!("f{}", self.compiled), code, spec) }.map_err(|e| format!("{e}"))
    }

    pub fn release(&mut self) {
        unsafe {
            let _ = self.std.clear();
            if let Some(c) = &mut self.custom {
                let _ = c.clear();
            }
        }
    }
}

unsafe extern "C" {
    fn LLVMResetFatalErrorHandler();
    fn LLVMInstallFatalErrorHandler(h: extern "C" fn(*const std::ffi::c_char));
}

/// Makes a fatal error inside LLVM identifiable: the worker's log gets a line
/// `LLVM-FATAL opt=<n> <reason>` before the process ends.
pub fn watch_llvm() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    extern "C" fn handler(reason: *const std::ffi::c_char) {
        let r = unsafe { std::ffi::CStr::from_ptr(reason) }.to_string_lossy();
        eprintln!("\nLLVM-FATAL {} {}", crate::fw::current_tag(), r.lines().next().unwrap_or(""));
    }
    ONCE.call_once(|| unsafe {
        LLVMResetFatalErrorHandler();
        LLVMInstallFatalErrorHandler(handler);
    });
}
