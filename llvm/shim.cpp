// Stand-in for crates/revmc-llvm/cpp/lib.cpp.
//
// The sandbox has the LLVM 22.1 shared library (shipped with Rust 1.98.1) but not its C++ headers, so
// lib.cpp cannot be compiled. This file provides the same `revmc_llvm_*` entry points on top of the
// LLVM-C API and a few exported C++ symbols whose ABI is re-declared by hand below.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <atomic>
#include <mutex>
#include <unordered_map>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>

extern "C" {
typedef struct LLVMOpaqueError *LLVMErrorRef;
unsigned LLVMGetEnumAttributeKindForName(const char *Name, size_t SLen);
LLVMErrorRef LLVMOrcJITDylibClear(void *JD);
void *LLVMOrcLLJITMangleAndIntern(void *J, const char *Name);
void LLVMOrcReleaseSymbolStringPoolEntry(void *S);
}

namespace llvm {
class LLVMContext;
// llvm::APInt: { union { u64 VAL; u64 *pVal; }; unsigned BitWidth; }
struct APInt { uint64_t V; unsigned W; };
struct ConstantRange { APInt Lower, Upper; };
template <class T> struct ArrayRef { const T *Data; size_t Len; };
class Attribute {
public:
  enum AttrKind : int {};
  static Attribute get(LLVMContext &, AttrKind, ArrayRef<ConstantRange>);
  void *Impl;
};
template <class T> class Expected {
public:
  ~Expected() {}
  alignas(8) char Storage[8];
  bool HasError : 1;
};
namespace orc {
struct ExecutorAddr { uint64_t A; };
class SymbolStringPtr { public: void *S; ~SymbolStringPtr() {} };
enum class JITDylibLookupFlags { MatchExportedSymbolsOnly, MatchAllSymbols };
class JITDylib { public: void addToLinkOrder(JITDylib &, JITDylibLookupFlags = JITDylibLookupFlags::MatchExportedSymbolsOnly); };
class LLJIT { public: Expected<ExecutorAddr> lookupLinkerMangled(JITDylib &, SymbolStringPtr); };
} // namespace orc
} // namespace llvm
using namespace llvm;

// Code generation happens inside lookups, on the calling thread. lib.cpp installs a per-compilation
// TargetMachine; the default compiler used here shares one, so lookups are serialised instead.
static std::mutex LookupMutex;

extern "C" void *revmc_llvm_create_initializes_attr(LLVMContext *C, int64_t Lower, int64_t Upper) {
  ConstantRange CR{{(uint64_t)Lower, 64}, {(uint64_t)Upper, 64}};
  auto Kind = (Attribute::AttrKind)LLVMGetEnumAttributeKindForName("initializes", 11);
  return Attribute::get(*C, Kind, ArrayRef<ConstantRange>{&CR, 1}).Impl;
}

// --- Live JIT memory accounting -------------------------------------------------------------------
// lib.cpp does this with a JITLink plugin. Here the same quantity is approximated by the size of the
// object file behind each resource tracker, added when the object is linked and subtracted when its
// tracker (or dylib) is removed. The LLVM-C calls involved are interposed: these definitions win over
// the shared library's, and forward to them.
namespace {
struct RTInfo { void *JD; size_t Size; };
std::mutex AcctMutex;
std::unordered_map<void *, RTInfo> RTs;
std::atomic<size_t> *CodeBytes = nullptr;
thread_local void *CurRT = nullptr;
thread_local size_t LinkedBytes = 0;
typedef LLVMErrorRef (*TransformFn)(void *, void **);
TransformFn UserTransform = nullptr;
void *UserCtx = nullptr;
template <class F> F real(const char *Name) {
  void *P = dlsym(RTLD_NEXT, Name);
  if (!P) { fprintf(stderr, "shim: no real %s\n", Name); abort(); }
  return (F)P;
}
void drop(RTInfo &I) {
  if (CodeBytes && I.Size) CodeBytes->fetch_sub(I.Size, std::memory_order_relaxed);
  I.Size = 0;
}
LLVMErrorRef countingTransform(void *Ctx, void **Obj);
} // namespace
extern "C" size_t LLVMGetBufferSize(void *);
namespace {
LLVMErrorRef countingTransform(void *, void **Obj) {
  if (*Obj) LinkedBytes += LLVMGetBufferSize(*Obj);
  return UserTransform ? UserTransform(UserCtx, Obj) : nullptr;
}
} // namespace
extern "C" void LLVMOrcObjectTransformLayerSetTransform(void *Layer, TransformFn F, void *Ctx) {
  static auto R = real<void (*)(void *, TransformFn, void *)>("LLVMOrcObjectTransformLayerSetTransform");
  UserTransform = F; UserCtx = Ctx;
  R(Layer, countingTransform, nullptr);
}
extern "C" void *LLVMOrcJITDylibCreateResourceTracker(void *JD) {
  static auto R = real<void *(*)(void *)>("LLVMOrcJITDylibCreateResourceTracker");
  void *RT = R(JD);
  std::lock_guard<std::mutex> L(AcctMutex);
  RTs[RT] = RTInfo{JD, 0};
  return RT;
}
extern "C" LLVMErrorRef LLVMOrcLLJITAddLLVMIRModuleWithRT(void *J, void *RT, void *M) {
  static auto R = real<LLVMErrorRef (*)(void *, void *, void *)>("LLVMOrcLLJITAddLLVMIRModuleWithRT");
  CurRT = RT;
  return R(J, RT, M);
}
extern "C" LLVMErrorRef LLVMOrcLLJITAddObjectFileWithRT(void *J, void *RT, void *B) {
  static auto R = real<LLVMErrorRef (*)(void *, void *, void *)>("LLVMOrcLLJITAddObjectFileWithRT");
  CurRT = RT;
  return R(J, RT, B);
}
extern "C" LLVMErrorRef LLVMOrcResourceTrackerRemove(void *RT) {
  static auto R = real<LLVMErrorRef (*)(void *)>("LLVMOrcResourceTrackerRemove");
  LLVMErrorRef E = R(RT);
  std::lock_guard<std::mutex> L(AcctMutex);
  auto It = RTs.find(RT);
  if (It != RTs.end()) { drop(It->second); RTs.erase(It); }
  return E;
}
extern "C" void LLVMOrcResourceTrackerTransferTo(void *Src, void *Dst) {
  static auto R = real<void (*)(void *, void *)>("LLVMOrcResourceTrackerTransferTo");
  R(Src, Dst);
  std::lock_guard<std::mutex> L(AcctMutex);
  auto It = RTs.find(Src);
  if (It != RTs.end()) { RTs[Dst].Size += It->second.Size; It->second.Size = 0; }
}
extern "C" LLVMErrorRef LLVMOrcJITDylibClear(void *JD) {
  static auto R = real<LLVMErrorRef (*)(void *)>("LLVMOrcJITDylibClear");
  LLVMErrorRef E = R(JD);
  std::lock_guard<std::mutex> L(AcctMutex);
  for (auto It = RTs.begin(); It != RTs.end();)
    if (It->second.JD == JD) { drop(It->second); It = RTs.erase(It); } else ++It;
  return E;
}
extern "C" LLVMErrorRef revmc_llvm_execution_session_remove_jit_dylib(void *, void *JD) {
  return LLVMOrcJITDylibClear(JD);
}
extern "C" void revmc_llvm_jit_dylib_add_to_link_order(orc::JITDylib *JD, orc::JITDylib *Other) {
  JD->addToLinkOrder(*Other);
}
extern "C" void revmc_llvm_lljit_builder_set_concurrent_compiler(void *) {}
extern "C" LLVMErrorRef revmc_llvm_lljit_lookup_in(orc::LLJIT *J, orc::JITDylib *JD, uint64_t *Result,
                                                   const char *Name) {
  std::lock_guard<std::mutex> L(LookupMutex);
  orc::SymbolStringPtr P;
  P.S = LLVMOrcLLJITMangleAndIntern(J, Name);
  LinkedBytes = 0;
  auto R = J->lookupLinkerMangled(*JD, P);
  if (CodeBytes && LinkedBytes && CurRT) {
    std::lock_guard<std::mutex> A(AcctMutex);
    auto It = RTs.find(CurRT);
    if (It != RTs.end()) {
      It->second.Size += LinkedBytes;
      CodeBytes->fetch_add(LinkedBytes, std::memory_order_relaxed);
    }
  }
  CurRT = nullptr;
  LLVMOrcReleaseSymbolStringPoolEntry(P.S);
  if (R.HasError) { void *E; memcpy(&E, R.Storage, 8); return (LLVMErrorRef)E; }
  memcpy(Result, R.Storage, 8);
  return nullptr;
}
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_memory_usage(void *, std::atomic<size_t> *Code, std::atomic<size_t> *) {
  std::lock_guard<std::mutex> L(AcctMutex);
  CodeBytes = Code;
  return nullptr;
}
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_simple_perf(void *) { return nullptr; }
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_perf_support(void *) { return nullptr; }
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_debug_support(void *) { return nullptr; }
extern "C" void revmc_llvm_target_machine_set_opt_level(void *, int) {}
extern "C" void revmc_llvm_set_dso_local(void *, bool) {}

// LLVM-C functions that the installed library lacks (targets it was built without, removed constants);
// never called by revmc on x86-64.
#define STUB(N) extern "C" void N() { __builtin_trap(); }
STUB(LLVMConstMul) STUB(LLVMConstNSWMul) STUB(LLVMConstNUWMul) STUB(LLVMRemarkVersion)
STUB(LLVMInitializeLanaiAsmParser) STUB(LLVMInitializeLanaiAsmPrinter) STUB(LLVMInitializeLanaiDisassembler)
STUB(LLVMInitializeLanaiTarget) STUB(LLVMInitializeLanaiTargetInfo) STUB(LLVMInitializeLanaiTargetMC)
STUB(LLVMInitializeXCoreAsmPrinter) STUB(LLVMInitializeXCoreDisassembler) STUB(LLVMInitializeXCoreTarget)
STUB(LLVMInitializeXCoreTargetInfo) STUB(LLVMInitializeXCoreTargetMC)
