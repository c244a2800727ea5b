// JIT execution with traced externals, volatile accesses and a block counter.
#include "common.hpp"
#include <llvm/ExecutionEngine/Orc/LLJIT.h>
#include <llvm/ExecutionEngine/Orc/ThreadSafeModule.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/Support/TargetSelect.h>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

using namespace llvm;
namespace vh
{
uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
Shm * newShm()
{
  void * p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm *)p;
}
void freeShm(Shm * s) { munmap(s, sizeof(Shm)); }

std::function<void()> execAtFinish;
std::vector<std::pair<std::string, void *>> execSymbols;
static Shm * g;
static uint64_t extCount;
static uint64_t kept;
static std::vector<std::pair<std::string, std::pair<char *, unsigned>>> exportedGlobals;

[[noreturn]] static void finish(uint32_t st)
{
  fflush(stdout);
  g->status = st;
  if (execAtFinish)
  {
    auto f = std::move(execAtFinish);
    execAtFinish = nullptr;
    f();
  }
  _exit(0);
}

using va_list_tag = std::remove_extent_t<va_list>;
[[noreturn]] void execStop() { finish(ExFuel); }
extern "C" {
float __extendhfsf2(_Float16);
_Float16 __truncsfhf2(float);
_Float16 __truncdfhf2(double);
_Float16 __truncxfhf2(long double);
alignas(16) char vh_ext0[32] = { 1, 2, 3, 4 };
alignas(16) char vh_ext1[32] = { 9, 8, 7, 6 };
void vhLog(uint32_t kind, uint32_t a, uint64_t b, uint64_t c)
{
  if (g->nev < Shm::MaxEv)
    g->ev[g->nev] = Event{ kind, a, b, c };
  g->nev++;
  g->hash = mix(g->hash, mix(mix(kind, a), mix(b, c)));
  if (++extCount >= g->extLimit)
    finish(ExExited);
}
void ext_i64(uint32_t id, uint64_t v) { vhLog(EvI64, id, v, 0); }
uint32_t ext_i32(uint32_t id, uint32_t v)
{
  vhLog(EvI32, id, v, 0);
  return (uint32_t)mix(extCount, mix(id, v));
}
static uint64_t canon(double d)
{
  if (std::isnan(d))
    return 0x7ff8000000000000ull;
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
void ext_f64(uint32_t id, double v) { vhLog(EvF64, id, canon(v), 0); }
static uint64_t hashMem(const char * p, uint32_t n)
{
  uint64_t h = n;
  for (uint32_t i = 0; i < n; i++)
    h = mix(h, (unsigned char)p[i]);
  return h;
}
void ext_peek(const char * p, uint32_t n) { vhLog(EvPeek, n, hashMem(p, n), 0); }
void ext_peekf(const double * p, uint32_t n)
{
  uint64_t h = n;
  for (uint32_t i = 0; i < n; i++)
    h = mix(h, canon(p[i]));
  vhLog(EvPeekF, n, h, 0);
}
void ext_poke(char * p, uint32_t n, uint32_t seed)
{
  vhLog(EvPoke, n, seed, hashMem(p, n));
  for (uint32_t i = 0; i < n; i++)
    p[i] = (char)mix(seed + extCount, i);
}
char * ext_ident(char * p)
{
  vhLog(EvIdent, 0, hashMem(p, 8), 0);
  return p;
}
void ext_keep(char * p)
{
  vhLog(EvKeep, 0, hashMem(p, 8), 0);
  kept = (uint64_t)p;
}
void ext_touch_kept(uint32_t seed)
{
  auto p = (char *)kept;
  vhLog(EvKeep, 1, seed, p ? hashMem(p, 8) : 0);
  if (p)
    for (int i = 0; i < 8; i++)
      p[i] = (char)mix(seed, i);
}
void ext_touch_exported(uint32_t seed)
{
  vhLog(EvGlob, seed, exportedGlobals.size(), 0);
  if (exportedGlobals.empty())
    return;
  auto & e = exportedGlobals[seed % exportedGlobals.size()];
  if (!e.second.first)
  {
    vhLog(EvGlob, 0xdead, seed % exportedGlobals.size(), 0);
    return;
  }
  vhLog(EvGlob, 1, hashMem(e.second.first, e.second.second), 0);
  for (unsigned i = 0; i < e.second.second; i++)
    e.second.first[i] ^= (char)mix(seed, i);
}
uint32_t ext_cb(uint32_t (*f)(uint32_t, char *), uint32_t x, char * p)
{
  vhLog(EvCb, 0, x, hashMem(p, 8));
  uint32_t r = f(x ^ 0x11, p);
  vhLog(EvCb, 1, r, hashMem(p, 8));
  return r + 1;
}
uint32_t ext_va(uint32_t n, ...)
{
  va_list ap;
  va_start(ap, n);
  uint64_t h = n;
  for (uint32_t i = 0; i < n; i++)
    h = mix(h, va_arg(ap, uint64_t));
  va_end(ap);
  vhLog(EvVa, n, h, 0);
  return (uint32_t)h;
}
uint64_t ext_vsum(uint32_t n, va_list_tag * l)
{
  va_list ap;
  memcpy(&ap, l, sizeof(ap));
  uint64_t h = n;
  for (uint32_t i = 0; i < n; i++)
    h = mix(h, va_arg(ap, uint64_t));
  vhLog(EvVa, 100 + n, h, 0);
  return h;
}
void ext_exit(uint32_t c)
{
  vhLog(EvExit, 0, c, 0);
  finish(ExExited);
}
void vh_vol(uint32_t kind, uint32_t size, uint64_t v)
{
  vhLog(kind, size, v, 0);
}
static void my_exit(int c)
{
  vhLog(EvExit, 1, c, 0);
  finish(ExExited);
}
void vh_tick()
{
  if (++g->ticks > g->fuel)
    finish(ExFuel);
}
}

static void instrument(Module & m)
{
  auto & C = m.getContext();
  auto tick = m.getOrInsertFunction("vh_tick", FunctionType::get(Type::getVoidTy(C), {}, false));
  auto vol = m.getOrInsertFunction("vh_vol", FunctionType::get(Type::getVoidTy(C),
      { Type::getInt32Ty(C), Type::getInt32Ty(C), Type::getInt64Ty(C) }, false));
  for (auto & f : m)
  {
    if (f.isDeclaration())
      continue;
    // our calls have side effects whatever the function's own attributes say
    f.removeFnAttr(Attribute::Memory);
    f.removeFnAttr(Attribute::NoSync);
    std::vector<Instruction *> vols;
    for (auto & i : instructions(f))
    {
      if (i.isVolatile())
        vols.push_back(&i);
      if (auto mi = dyn_cast<MemIntrinsic>(&i); mi && mi->isVolatile())
        vols.push_back(&i);
    }
    for (auto i : vols)
    {
      Value * v = nullptr;
      uint32_t kind = EvVolStore;
      uint32_t size = 0;
      IRBuilder<> b(i);
      if (auto l = dyn_cast<LoadInst>(i))
      {
        v = l;
        kind = EvVolLoad;
        b.SetInsertPoint(l->getNextNode());
      }
      else if (auto s = dyn_cast<StoreInst>(i))
        v = s->getValueOperand();
      else if (auto mi = dyn_cast<MemIntrinsic>(i))
      {
        v = mi->getLength();
        size = 0x1000;
      }
      if (!v)
        continue;
      auto t = v->getType();
      size += (uint32_t)m.getDataLayout().getTypeStoreSize(t);
      if (t->isDoubleTy() || t->isFloatTy())
        v = b.CreateBitCast(v, b.getIntNTy(t->getPrimitiveSizeInBits()));
      if (v->getType()->isIntegerTy())
        v = b.CreateZExtOrTrunc(v, b.getInt64Ty());
      else
        v = b.getInt64(0); // pointers/aggregates: only the access is recorded
      b.CreateCall(vol, { b.getInt32(kind), b.getInt32(size), v });
    }
    for (auto & bb : f)
    {
      IRBuilder<> b(&bb, bb.getFirstInsertionPt());
      b.CreateCall(tick, {});
    }
  }
}

static void onSignal(int s)
{
  // async-signal-safe enough: only touches shared memory
  if (s == SIGALRM || s == SIGVTALRM || s == SIGPROF)
    g->status = ExTimeout;
  else
    g->status = ExCrash;
  snprintf(g->msg, 100, "signal %d", s);
  _exit(0);
}

void execInChild(std::unique_ptr<Module> m, std::unique_ptr<LLVMContext> ctx, Shm * shm, uint64_t fuel, bool cMain)
{
  g = shm;
  g->status = ExNone;
  g->nev = g->ticks = g->hash = g->ret = 0;
  g->fuel = fuel;
  g->extLimit = 6000;
  extCount = 0;
  kept = 0;
  auto fail = [&](Error e)
  {
    std::string s = toString(std::move(e));
    snprintf(g->msg, sizeof(g->msg), "%s", s.c_str());
    finish(ExJitError);
  };
  std::vector<std::pair<std::string, unsigned>> exported;
  std::vector<std::string> names;
  for (auto & gv : m->globals())
    if (!gv.isDeclaration() && gv.hasExternalLinkage() && !gv.isConstant())
    {
      auto n = gv.getName().str();
      if (n.find("gs") != std::string::npos || n.find("gb") != std::string::npos)
        exported.push_back({ n, (unsigned)m->getDataLayout().getTypeStoreSize(gv.getValueType()) });
    }
  std::sort(exported.begin(), exported.end());
  instrument(*m);
  InitializeNativeTarget();
  InitializeNativeTargetAsmPrinter();
  auto jtmb = orc::JITTargetMachineBuilder(Triple("x86_64-unknown-linux-gnu"));
  jtmb.setCodeGenOptLevel(CodeGenOptLevel::None);
  jtmb.getOptions().EnableFastISel = true;
  auto jit = orc::LLJITBuilder().setJITTargetMachineBuilder(jtmb).setNumCompileThreads(0).create();
  if (!jit)
    fail(jit.takeError());
  auto & J = **jit;
  auto & JD = J.getMainJITDylib();
  orc::SymbolMap sm;
  auto add = [&](const char * n, void * p)
  {
    sm[J.mangleAndIntern(n)] = { orc::ExecutorAddr::fromPtr((char *)p), JITSymbolFlags::Exported | JITSymbolFlags::Callable };
  };
#define A(x) add(#x, (void *)&x)
  A(ext_i64); A(ext_i32); A(ext_f64); A(ext_peek); A(ext_peekf); A(ext_poke); A(ext_ident); A(ext_keep);
  A(ext_touch_kept); A(ext_touch_exported); A(ext_cb); A(ext_va); A(ext_exit); A(vh_vol); A(vh_tick);
  A(ext_vsum); A(__extendhfsf2); A(__truncsfhf2); A(__truncdfhf2); A(__truncxfhf2);
  auto addVar = [&](const char * n, void * p) { sm[J.mangleAndIntern(n)] = { orc::ExecutorAddr::fromPtr((char *)p), JITSymbolFlags::Exported }; };
  addVar("vh_ext0", vh_ext0); addVar("vh_ext1", vh_ext1);
  add("exit", (void *)&my_exit);
  for (auto & [n, p] : execSymbols)
    add(n.c_str(), p);
  cantFail(JD.define(orc::absoluteSymbols(sm)));
  JD.addGenerator(cantFail(orc::DynamicLibrarySearchGenerator::GetForCurrentProcess(
      J.getDataLayout().getGlobalPrefix())));
  m->setDataLayout(J.getDataLayout());
  m->setTargetTriple("x86_64-unknown-linux-gnu");
  if (auto e = J.addIRModule(orc::ThreadSafeModule(std::move(m), std::move(ctx))))
    fail(std::move(e));
  auto sym = J.lookup(cMain ? "main" : "vh_main");
  if (!sym)
    fail(sym.takeError());
  for (auto & e : exported)
  {
    auto s = J.lookup(e.first);
    if (s)
      exportedGlobals.push_back({ e.first, { s->toPtr<char *>(), e.second } });
    else
    {
      consumeError(s.takeError());
      exportedGlobals.push_back({ e.first, { nullptr, 0 } });
    }
  }
  static char altstack[65536];
  stack_t ss{ };
  ss.ss_sp = altstack;
  ss.ss_size = sizeof(altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM, SIGALRM })
    sigaction(s, &sa, nullptr);
  itimerval tv{};
  tv.it_value.tv_sec = 20;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  uint64_t r;
  if (cMain)
  {
    static char a0[] = "prog";
    static char * argv[] = { a0, nullptr };
    r = (uint32_t)sym->toPtr<int(int, char **)>()(1, argv);
  }
  else
    r = (uint32_t)sym->toPtr<uint32_t()>()();
  g->ret = r;
  finish(ExReturned);
}

const char * statusName(uint32_t s)
{
  static const char * n[] = { "none", "returned", "exited", "fuel-exhausted", "crashed", "timeout", "jit-error" };
  return s < 7 ? n[s] : "?";
}
std::string describe(const ExecResult & r, size_t maxEv)
{
  char b[256];
  snprintf(b, sizeof(b), "%s ret=%llu events=%llu blocks=%llu hash=%016llx %s", statusName(r.status), (unsigned long long)r.ret,
           (unsigned long long)r.nev, (unsigned long long)r.ticks, (unsigned long long)r.hash, r.msg.substr(0, 80).c_str());
  std::string s = b;
  for (size_t i = 0; i < r.ev.size() && i < maxEv; i++)
  {
    snprintf(b, sizeof(b), "\n  ev[%zu] kind=%u a=%u b=%llx c=%llx", i, r.ev[i].kind, r.ev[i].a, (unsigned long long)r.ev[i].b,
             (unsigned long long)r.ev[i].c);
    s += b;
  }
  return s;
}
std::string compareResults(const ExecResult & ref, const ExecResult & got)
{
  auto e2s = [](const Event & e)
  {
    char b[128];
    snprintf(b, sizeof(b), "{kind=%u a=%u b=%llx c=%llx}", e.kind, e.a, (unsigned long long)e.b, (unsigned long long)e.c);
    return std::string(b);
  };
  size_t n = std::min(ref.ev.size(), got.ev.size());
  for (size_t i = 0; i < n; i++)
    if (memcmp(&ref.ev[i], &got.ev[i], sizeof(Event)))
      return "event " + std::to_string(i) + " differs: expected " + e2s(ref.ev[i]) + " got " + e2s(got.ev[i]);
  if (ref.nev != got.nev)
    return "number of events differs: expected " + std::to_string(ref.nev) + " got " + std::to_string(got.nev) + " (" + statusName(got.status) + " " + got.msg.substr(0,200) + ")";
  if (ref.status != got.status)
    return std::string("status differs: expected ") + statusName(ref.status) + " got " + statusName(got.status) + " " + got.msg.substr(0, 200);
  if (ref.hash != got.hash)
    return "event hash differs";
  if (ref.status == ExReturned && ref.ret != got.ret)
    return "return value differs: expected " + std::to_string(ref.ret) + " got " + std::to_string(got.ret);
  if (ref.out != got.out)
    return "stdout differs";
  return "";
}
}
