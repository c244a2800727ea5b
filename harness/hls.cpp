// High-level synthesis: functions are taken apart, instrumented and converted to circuits; what the extracted function, the
// instrumented reference and the circuit compute is compared with the function itself.
#include "hlsgen.hpp"
#include "hlssim.hpp"
#include "jlmapi.hpp"
#include "model.hpp"
#include "monitor.hpp"
#include <jlm/hls/backend/rvsdg2rhls/add-buffers.hpp>
#include <jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.hpp>
#include <jlm/hls/HlsDotWriter.hpp>
#include <llvm/ExecutionEngine/Orc/LLJIT.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/TargetSelect.h>
#include <llvm/Target/TargetMachine.h>
#include <llvm/TargetParser/Triple.h>
#include <fstream>
#include <unistd.h>
namespace vh
{
namespace
{
using LMod = std::unique_ptr<llvm::Module>;
uint64_t maskTo(int b) { return b >= 64 ? ~0ull : (1ull << b) - 1; }
std::string underscores(std::string s)
{
  for (auto & c : s)
    if (c == '.')
      c = '_';
  return s;
}
LMod parse(const std::string & text, llvm::LLVMContext & ctx, Case & c)
{
  llvm::SMDiagnostic err;
  auto m = llvm::parseIR(llvm::MemoryBufferRef(text, "hls"), err, ctx);
  if (!m)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    err.print("hls", os);
    c.bad("the output does not parse: " + s);
  }
  return m;
}
std::string print(llvm::Module & m)
{
  std::string s;
  llvm::raw_string_ostream os(s);
  m.print(os, nullptr);
  return s;
}
void pipeline(llvm::Module & m, const std::string & pipe)
{
  llvm::PassBuilder PB;
  llvm::LoopAnalysisManager LAM;
  llvm::FunctionAnalysisManager FAM;
  llvm::CGSCCAnalysisManager CAM;
  llvm::ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  llvm::FunctionPassManager FPM;
  if (auto e = PB.parsePassPipeline(FPM, pipe))
  {
    fprintf(stderr, "pipeline error: %s\n", toString(std::move(e)).c_str());
    abort();
  }
  llvm::ModulePassManager MPM;
  MPM.addPass(llvm::createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(m, MAM);
}
// memory of one execution: the arrays of the program, with room around each
struct World
{
  std::vector<std::vector<uint8_t>> data;
  std::vector<uint8_t *> base;
  void shape(const HlsProgram & p, bool withGlobals)
  {
    data.resize(p.arrays.size());
    base.assign(p.arrays.size(), nullptr);
    for (size_t i = 0; i < p.arrays.size(); i++)
    {
      auto & a = p.arrays[i];
      if (a.name[0] == '@' && !withGlobals)
        continue;
      if (a.name.rfind("%l", 0) == 0)
        continue;
      data[i].resize(a.n * a.bits / 8 + 48);
      base[i] = (uint8_t *)(((uintptr_t)data[i].data() + 15) & ~15ull) + 16;
    }
  }
};
uint64_t refLoads, refStores, refAllocas;
const HlsProgram * refProg;
const World * refWorld;
std::vector<std::pair<uint64_t, uint64_t>> refStack;
std::string refErr;
void checkRef(uint64_t addr, uint64_t lg)
{
  uint64_t n = 1ull << lg;
  for (size_t i = 0; i < refProg->arrays.size(); i++)
    if (refWorld->base[i] && addr >= (uint64_t)refWorld->base[i]
        && addr + n <= (uint64_t)refWorld->base[i] + refProg->arrays[i].n * refProg->arrays[i].bits / 8)
      return;
  for (auto & [b, s] : refStack)
    if (addr >= b && addr + n <= b + s)
      return;
  if (refErr.empty())
    refErr = "the instrumented reference reports an access of " + std::to_string(n) + " bytes outside every object";
}
extern "C" void reference_load(uint64_t addr, uint64_t w) { refLoads++; checkRef(addr, w); }
extern "C" void reference_store(uint64_t addr, uint64_t w) { refStores++; checkRef(addr, w); }
extern "C" void reference_alloca(uint64_t start, uint64_t len) { refAllocas++; refStack.emplace_back(start, len); }

struct Jit
{
  std::unique_ptr<llvm::orc::LLJIT> jit;
  void (*fn)(const uint64_t *, uint64_t *) = nullptr;
  // builds a wrapper that takes the arguments from an array
  Jit(llvm::Module & src, const std::string & name, const HlsProgram & p, World & w, Case & c, bool under, bool importGlobals)
  {
    llvm::InitializeNativeTarget();
    llvm::InitializeNativeTargetAsmPrinter();
    auto ctx = std::make_unique<llvm::LLVMContext>();
    auto m = parse(print(src), *ctx, c);
    for (auto & g : m->globals())
      if (g.hasInitializer())
        g.setLinkage(llvm::GlobalValue::ExternalLinkage);
    auto f = m->getFunction(name);
    if (!f || f->isDeclaration())
      c.bad("there is no definition of " + name);
    if (f->hasLocalLinkage())
      f->setLinkage(llvm::GlobalValue::ExternalLinkage);
    if (f->arg_size() != p.argBits.size())
      c.bad("the function lost arguments");
    llvm::IRBuilder<> B(*ctx);
    auto pt = llvm::PointerType::get(*ctx, 0);
    auto wf = llvm::Function::Create(llvm::FunctionType::get(B.getVoidTy(), { pt, pt }, false), llvm::GlobalValue::ExternalLinkage, "vh_wrap", *m);
    B.SetInsertPoint(llvm::BasicBlock::Create(*ctx, "", wf));
    std::vector<llvm::Value *> args;
    for (size_t i = 0; i < p.argBits.size(); i++)
    {
      auto addr = B.CreateConstGEP1_64(B.getInt64Ty(), wf->getArg(0), i);
      llvm::Value * v = B.CreateLoad(B.getInt64Ty(), addr);
      auto t = f->getArg(i)->getType();
      args.push_back(t->isPointerTy() ? B.CreateIntToPtr(v, t) : B.CreateTrunc(v, t));
    }
    auto call = B.CreateCall(f, args);
    call->setCallingConv(f->getCallingConv());
    if (!call->getType()->isVoidTy())
      B.CreateStore(B.CreateZExt(call, B.getInt64Ty()), wf->getArg(1));
    B.CreateRetVoid();
    std::string err;
    if (!verifies(*m, err))
      c.bad("invalid IR: " + err);
    std::vector<std::string> globals(p.arrays.size());
    for (size_t i = 0; i < p.arrays.size(); i++)
      if (p.arrays[i].name[0] == '@')
      {
        auto n = p.arrays[i].name.substr(1);
        if (under)
        {
          if (auto g = m->getNamedGlobal(n); !g)
            n = underscores(n);
        }
        globals[i] = n;
      }
    auto jtmb = llvm::orc::JITTargetMachineBuilder(llvm::Triple("x86_64-unknown-linux-gnu"));
    jtmb.setCodeGenOptLevel(llvm::CodeGenOptLevel::None);
    auto j = llvm::orc::LLJITBuilder().setJITTargetMachineBuilder(jtmb).setNumCompileThreads(0).create();
    if (!j)
      c.bad("jit: " + toString(j.takeError()));
    jit = std::move(*j);
    llvm::orc::SymbolMap sm;
    auto add = [&](const std::string & n, void * a)
    { sm[jit->mangleAndIntern(n)] = { llvm::orc::ExecutorAddr::fromPtr((char *)a), llvm::JITSymbolFlags::Exported }; };
    add("reference_load", (void *)&reference_load);
    add("reference_store", (void *)&reference_store);
    add("reference_alloca", (void *)&reference_alloca);
    if (importGlobals)
      for (size_t i = 0; i < globals.size(); i++)
        if (!globals[i].empty())
          add(globals[i], w.base[i]);
    cantFail(jit->getMainJITDylib().define(llvm::orc::absoluteSymbols(sm)));
    m->setDataLayout(jit->getDataLayout());
    m->setTargetTriple("x86_64-unknown-linux-gnu");
    std::vector<char> has(globals.size());
    for (size_t i = 0; i < globals.size(); i++)
      has[i] = !globals[i].empty() && m->getNamedGlobal(globals[i]) && m->getNamedGlobal(globals[i])->hasInitializer();
    if (auto e = jit->addIRModule(llvm::orc::ThreadSafeModule(std::move(m), std::move(ctx))))
      c.bad("jit: " + toString(std::move(e)));
    auto s = jit->lookup("vh_wrap");
    if (!s)
      c.bad("the module does not link: " + toString(s.takeError()));
    fn = s->toPtr<void (*)(const uint64_t *, uint64_t *)>();
    for (size_t i = 0; i < globals.size(); i++)
      if (has[i])
      {
        auto g = jit->lookup(globals[i]);
        if (!g)
          c.bad("jit: " + toString(g.takeError()));
        w.base[i] = g->toPtr<uint8_t *>();
      }
  }
};
struct Invocation { std::vector<uint64_t> scalars; };
std::string hex(uint64_t v)
{
  char b[40];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
  return b;
}
struct Runner
{
  const HlsProgram & p;
  std::vector<std::vector<uint64_t>> init; // contents of the arrays
  std::vector<std::vector<uint64_t>> scalars; // per invocation
  void fill(World & w, bool globals)
  {
    for (size_t i = 0; i < p.arrays.size(); i++)
    {
      auto & a = p.arrays[i];
      if (!w.base[i] || (a.name[0] == '@' && !globals))
        continue;
      for (size_t j = 0; j < a.n; j++)
      {
        uint64_t v = init[i][j];
        if (a.pointers)
          v = (uint64_t)w.base[a.target] + v * p.arrays[a.target].bits / 8;
        memcpy(w.base[i] + j * a.bits / 8, &v, a.bits / 8);
      }
    }
  }
  std::vector<uint64_t> args(World & w, size_t inv)
  {
    std::vector<uint64_t> out;
    for (size_t i = 0; i < p.argBits.size(); i++)
      out.push_back(p.argBits[i] ? scalars[inv][i] : (uint64_t)w.base[p.argArray[i]]);
    return out;
  }
  std::vector<std::vector<uint8_t>> snapshot(World & w)
  {
    std::vector<std::vector<uint8_t>> out(p.arrays.size());
    for (size_t i = 0; i < p.arrays.size(); i++)
      if (w.base[i])
      {
        auto & a = p.arrays[i];
        out[i].assign(w.base[i], w.base[i] + a.n * a.bits / 8);
        if (a.pointers)
          for (size_t j = 0; j < a.n; j++)
          {
            uint64_t v;
            memcpy(&v, &out[i][j * 8], 8);
            v -= (uint64_t)w.base[a.target];
            memcpy(&out[i][j * 8], &v, 8);
          }
      }
    return out;
  }
  std::string diff(const std::vector<std::vector<uint8_t>> & a, const std::vector<std::vector<uint8_t>> & b)
  {
    for (size_t i = 0; i < p.arrays.size(); i++)
      if (!a[i].empty() && !b[i].empty())
        for (size_t j = 0; j < a[i].size(); j++)
          if (a[i][j] != b[i][j])
          {
            auto w = p.arrays[i].bits / 8;
            return p.arrays[i].name + "[" + std::to_string(j / w) + "] differs";
          }
    return "";
  }
};
struct Step { uint64_t ret; std::vector<std::vector<uint8_t>> mem; };

bool debug() { static bool d = getenv("VH_HLS_DEBUG") != nullptr; return d; }
void hlsProgram(Rng & r, Case & c, HlsProgram p, bool known)
{
  if (auto f = getenv("VH_HLS_IR"))
  {
    std::ifstream in(f);
    p.ir.assign((std::istreambuf_iterator<char>(in)), {});
  }
  llvm::LLVMContext ctx;
  auto m = parse(p.ir, ctx, c);
  std::string verr;
  if (!verifies(*m, verr))
  {
    fprintf(stderr, "%s", p.ir.c_str());
    c.bad("generator: " + verr);
  }
  pipeline(*m, p.pipeline);
  auto ir = print(*m);
  fprintf(stderr, "%s", ir.c_str());
  c.seen(ir);
  Runner run{ p };
  for (auto & a : p.arrays)
  {
    run.init.emplace_back();
    for (size_t j = 0; j < a.n; j++)
      run.init.back().push_back(a.pointers ? r.below(p.arrays[a.target].n - 1) : r.chance(50) ? r.below(10) : r.next() & maskTo(a.bits));
  }
  int K = r.range(2, 3);
  for (int k = 0; k < K; k++)
  {
    run.scalars.emplace_back();
    for (auto b : p.argBits)
      run.scalars.back().push_back(!b ? 0 : (r.chance(60) ? (uint64_t)r.range(-3, 12) : r.next()) & maskTo(b));
  }
  // the reference
  auto execute = [&](llvm::Module & mod, const std::string & name, const std::string & what, const std::vector<Step> * want, World & w, Jit & J, bool fillGlobals)
  {
    std::vector<Step> out;
    run.fill(w, fillGlobals);
    for (int k = 0; k < K; k++)
    {
      uint64_t ret = 0;
      auto a = run.args(w, k);
      refProg = &p;
      refWorld = &w;
      refStack.clear();
      J.fn(a.data(), &ret);
      out.push_back({ ret, run.snapshot(w) });
      if (want)
      {
        c.stat("hls.runs." + what);
        if (ret != (*want)[k].ret)
          c.bad(what + ": call " + std::to_string(k) + " returns " + hex(ret) + ", expected " + hex((*want)[k].ret));
        auto d = run.diff((*want)[k].mem, out.back().mem);
        if (!d.empty())
          c.bad(what + ": call " + std::to_string(k) + ": " + d);
        if (!refErr.empty())
          c.bad(refErr);
      }
    }
    return out;
  };
  World w0;
  w0.shape(p, false);
  Jit j0(*m, "f", p, w0, c, false, false);
  // the initial contents of globals are those of the initialisers
  for (size_t i = 0; i < p.arrays.size(); i++)
    if (p.arrays[i].name[0] == '@' && w0.base[i])
      for (size_t j = 0; j < p.arrays[i].n; j++)
      {
        uint64_t v = 0;
        memcpy(&v, w0.base[i] + j * p.arrays[i].bits / 8, p.arrays[i].bits / 8);
        run.init[i][j] = v;
      }
  auto want = execute(*m, "f", "reference", nullptr, w0, j0, false);

  jlm::util::StatisticsCollector sc;
  std::unique_ptr<jlm::llvm::LlvmRvsdgModule> fm;
  std::string unsupported;
  std::string stage = "split";
  auto guarded = [&](const std::function<void()> & f)
  {
    try
    {
      f();
    }
    catch (jlm::util::Error & e)
    {
      unsupported = e.what();
    }
    catch (std::exception & e)
    {
      unsupported = e.what();
    }
    return unsupported.empty();
  };
  auto giveUp = [&]
  {
    c.nonTrivial = false;
    std::string s = unsupported.substr(0, 40);
    for (auto & ch : s)
      if (!isalnum(ch))
        ch = '_';
    c.stat("hls.unsupported." + stage + "." + s);
    if (stage != "simulate")
      c.bad(stage + " throws: " + unsupported);
  };
  auto rm = toRvsdg(*m, sc);
  int saved = -1;
  auto quiet = [&](bool on)
  {
    fflush(stdout);
    std::cout.flush();
    if (on)
    {
      saved = dup(1);
      dup2(2, 1);
    }
    else
    {
      dup2(saved, 1);
      close(saved);
    }
  };
  auto graph = [&](jlm::llvm::LlvmRvsdgModule & g, const char * at)
  {
    GraphStats st;
    auto e = checkGraph(g.Rvsdg(), st);
    if (!e.empty())
      c.bad(std::string(at) + ": " + e);
  };
  quiet(true);
  bool ok = guarded([&] { fm = jlm::hls::split_hls_function(*rm, "f"); });
  quiet(false);
  if (!ok)
    return giveUp();
  graph(*rm, "the rest after extraction");
  graph(*fm, "the extracted function");
  auto fl = toLlvm(*fm, ctx, sc);
  auto rl = toLlvm(*rm, ctx, sc);
  auto fText = print(*fl);
  c.stat("hls.split");
  {
    auto whole = parse(print(*rl), ctx, c);
    auto part = parse(fText, ctx, c);
    if (debug())
      fprintf(stderr, "---- rest\n%s---- function\n%s", print(*whole).c_str(), fText.c_str());
    if (auto g = whole->getFunction("f"); g && !g->isDeclaration())
      c.bad("the rest still defines the function");
    if (llvm::Linker::linkModules(*whole, std::move(part)))
      c.bad("the parts do not link");
    World w;
    w.shape(p, false);
    Jit j(*whole, "f", p, w, c, true, false);
    execute(*whole, "f", "extracted function", &want, w, j, false);
  }
  bool poison = false;
  {
    // as the jhls driver does it: through files and another mem2reg
    auto pm = parse(fText, ctx, c);
    pipeline(*pm, r.chance(60) ? "mem2reg" : p.pipeline);
    poison = print(*pm).find("poison") != std::string::npos;
    fm = toRvsdg(*pm, sc);
  }
  if (r.chance(30))
  {
    stage = "reference";
    char path[] = "/tmp/vh-hls-XXXXXX";
    int fd = mkstemp(path);
    if (fd >= 0)
    {
      close(fd);
      quiet(true);
      ok = guarded([&] { jlm::hls::rvsdg2ref(*fm, jlm::util::FilePath(path)); });
      quiet(false);
      std::ifstream in(path);
      std::string text((std::istreambuf_iterator<char>(in)), {});
      unlink(path);
      if (!ok)
        return giveUp();
      if (debug())
        fprintf(stderr, "---- instrumented reference\n%s", text.c_str());
      auto im = parse(text, ctx, c);
      World w;
      w.shape(p, true);
      Jit j(*im, "instrumented_ref", p, w, c, true, true);
      execute(*im, "instrumented_ref", "instrumented reference", &want, w, j, true);
      c.stat("hls.ref.loads", refLoads);
      c.stat("hls.ref.stores", refStores);
    }
  }
  // the FIRRTL backend knows no poison
  if (poison)
    return c.stat("hls.poison");
  // circuits with local memory are a known finding: the requests to it do not survive the pruning of dead nodes
  if (!known)
    for (auto & x : p.arrays)
      if (x.name.rfind("%l", 0) == 0)
        return c.stat("hls.localmemory");
  int lat = r.chance(50) ? r.range(1, 4) : r.range(5, 40);
  jlm::hls::setMemoryLatency(lat);
  stage = "circuit";
  quiet(true);
  ok = guarded(
      [&]
      {
        jlm::hls::HlsDotWriter dw;
        if (auto at = getenv("VH_HLS_DOTS"))
        {
          jlm::util::StatisticsCollector sd(jlm::util::StatisticsCollectorSettings({}, jlm::util::FilePath(at), "hls"));
          jlm::hls::createTransformationSequence(dw, true)->Run(*fm, sd);
        }
        jlm::hls::createTransformationSequence(dw, false)->Run(*fm, sc);
      });
  quiet(false);
  if (!ok)
    return giveUp();
  graph(*fm, "the circuit");
  stage = "simulate";
  HlsSim sim(*fm, r);
  if (!sim.unsupported.empty())
  {
    unsupported = sim.unsupported;
    return giveUp();
  }
  if (!sim.setupError.empty())
    c.bad("malformed circuit: " + sim.setupError);
  for (auto & kv : sim.census)
    c.stat("hls.node." + kv.first, kv.second);
  c.stat("hls.components", sim.components());
  c.stat("hls.ports", sim.ports());
  int memLat = r.chance(40) ? 0 : r.range(1, 3 * lat);
  int stall = r.chance(40) ? 0 : r.range(5, 70);
  bool reorder = r.chance(30);
  auto calls = [&](HlsSim & sim, const std::string & what) -> std::string
  {
    World w;
    w.shape(p, true);
    run.fill(w, true);
    std::vector<SimRegion> mem;
    std::map<std::string, uint64_t> globals;
    for (size_t i = 0; i < p.arrays.size(); i++)
      if (w.base[i])
      {
        mem.push_back({ w.base[i], p.arrays[i].n * p.arrays[i].bits / 8, p.arrays[i].name });
        if (p.arrays[i].name[0] == '@')
        {
          globals[p.arrays[i].name.substr(1)] = (uint64_t)w.base[i];
          globals[underscores(p.arrays[i].name.substr(1))] = (uint64_t)w.base[i];
        }
      }
    for (int k = 0; k < K; k++)
    {
      auto res = sim.run(run.args(w, k), globals, mem, memLat, stall, reorder);
      c.stat("hls.sim.calls");
      c.stat("hls.sim.cycles", res.cycles);
      c.stat("hls.sim.transfers", res.fires);
      c.stat("hls.sim.requests", res.requests);
      if (!res.inconclusive.empty())
      {
        c.stat("hls.sim.inconclusive." + res.inconclusive.substr(0, 11));
        return "inconclusive";
      }
      if (debug())
        sim.dump();
      std::string at = what + "call " + std::to_string(k);
      if (!res.err.empty())
        return at + ": " + res.err;
      if (p.retBits && res.ret != want[k].ret)
        return at + " returns " + hex(res.ret) + ", expected " + hex(want[k].ret);
      auto d = run.diff(want[k].mem, run.snapshot(w));
      if (!d.empty())
        return at + ": " + d;
    }
    return "";
  };
  auto bad = calls(sim, "");
  if (bad == "inconclusive")
    return;
  if (bad.find("deadlock") != std::string::npos && !known)
  {
    // known finding: the buffers on the backedges of outer loops are moved to places where they do not decouple the iterations
    HlsSim relaxed(*fm, r, true);
    auto b = calls(relaxed, "with buffers on all backedges, ");
    if (b.empty())
    {
      c.stat("hls.deadlock.backedge");
      return;
    }
    if (b != "inconclusive")
      bad += "; " + b;
  }
  if (!bad.empty())
    c.bad("circuit: " + bad);
  c.stat("hls.circuits");
}
void hlsCase(Rng & r, Case & c) { hlsProgram(r, c, generateHls(r), false); }
}
int hlsMode(const Args & a) { return modelMode(a, "hls", 20, hlsCase); }
int hlsKnownMode(const Args & a)
{
  return modelMode(a, "known-hls", 20, [](Rng & r, Case & c) { hlsProgram(r, c, knownHls(c.index), true); });
}
}
