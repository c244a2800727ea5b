#include "diff.hpp"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <algorithm>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <jlm/rvsdg/view.hpp>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include <unistd.h>

// the settings of the code under test that come from the environment
static std::string environmentLines()
{
  std::string l;
  for (char ** e = environ; *e; e++)
    if (!strncmp(*e, "JLM_", 4) && strncmp(*e, "JLM_VERIF", 9))
      l += std::string("\n; env: ") + *e;
  return l;
}

namespace vh
{
int cpuScale = 1;
std::vector<std::string> split(const std::string & s, char c)
{
  std::vector<std::string> r;
  std::stringstream ss(s);
  std::string x;
  while (std::getline(ss, x, c))
    if (!x.empty())
      r.push_back(x);
  return r;
}
std::string join(const std::vector<std::string> & v, const char * sep)
{
  std::string s;
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? sep : "") + v[i];
  return s;
}
static std::string oneLine(std::string s)
{
  for (auto & c : s)
    if (c == '\n' || c == '\t')
      c = ' ';
  return s.substr(0, 1500);
}
void Report::violation(const std::string & caseId, const std::string & key, const std::string & detail, const std::string & repro)
{
  violations++;
  printf("VIOL\t%s\t%s\t%s\t%s\n", caseId.c_str(), oneLine(key).c_str(), oneLine(detail).c_str(), repro.c_str());
  fflush(stdout);
}
void Report::inconclusive(const std::string & caseId, const std::string & why)
{
  stat("inconclusive");
  printf("INCONC\t%s\t%s\n", caseId.c_str(), oneLine(why).c_str());
  fflush(stdout);
}
void Report::flush()
{
  for (auto & kv : stats)
    printf("STAT\t%s\t%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  fflush(stdout);
}
StageShm * stageShm()
{
  static StageShm * s = (StageShm *)mmap(nullptr, sizeof(StageShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return s;
}
void childStat(const std::string & k, uint64_t n)
{
  auto s = stageShm();
  size_t l = strlen(s->stats);
  if (l + k.size() + 24 < sizeof(s->stats))
    snprintf(s->stats + l, sizeof(s->stats) - l, "%s=%llu;", k.c_str(), (unsigned long long)n);
}
static Shm * theShm()
{
  static Shm * s = newShm();
  return s;
}
static ExecResult collect(Shm * s, const ChildResult & cr)
{
  ExecResult r;
  r.status = s->status;
  r.ret = s->ret;
  r.ticks = s->ticks;
  r.nev = s->nev;
  r.hash = s->hash;
  r.msg = s->msg;
  r.ev.assign(s->ev, s->ev + std::min<uint64_t>(s->nev, Shm::MaxEv));
  r.out = cr.out;
  if (r.status == ExNone)
  {
    r.status = ExCrash;
    r.msg = cr.sig ? "signal " + std::to_string(cr.sig) : "exit " + std::to_string(cr.code);
    if (cr.cpuLimit)
      r.status = ExTimeout;
  }
  return r;
}
bool runReference(Program & p, std::string & why)
{
  auto shm = theShm();
  shm->status = ExNone;
  shm->msg[0] = 0;
  auto cr = runChild([&]
  {
    auto ctx = std::make_unique<llvm::LLVMContext>();
    std::string err;
    auto m = parseModule(p.text, *ctx, err);
    if (!m)
    {
      snprintf(shm->msg, sizeof(shm->msg), "%s", err.c_str());
      _exit(96);
    }
    if (auto e = getenv("VH_ALLOCA_INIT")) // debugging aid: does the program read memory it did not initialise?
      for (auto & f : *m)
        for (auto & bb : f)
          for (auto & i : llvm::make_early_inc_range(bb))
            if (auto a = llvm::dyn_cast<llvm::AllocaInst>(&i))
            {
              llvm::IRBuilder<> b(a->getNextNode());
              auto sz = b.CreateMul(b.CreateZExtOrTrunc(a->getArraySize(), b.getInt64Ty()),
                                    b.getInt64(m->getDataLayout().getTypeAllocSize(a->getAllocatedType())));
              b.CreateMemSet(a, b.getInt8(atoi(e)), sz, a->getAlign());
            }
    execInChild(std::move(m), std::move(ctx), shm, 400000, p.cMain);
  }, 40 * cpuScale);
  p.ref = collect(shm, cr);
  if (p.ref.status == ExReturned || p.ref.status == ExExited || p.ref.status == ExFuel)
    return true;
  why = std::string("reference run: ") + statusName(p.ref.status) + " " + p.ref.msg + " " + cr.err.substr(0, 300);
  return false;
}
// instcombine sometimes overstates the alignment of the fields of packed structs when it splits accesses
static void repairAlignment(llvm::Module & m)
{
  std::function<bool(llvm::Type *)> packed = [&](llvm::Type * t)
  {
    if (auto s = llvm::dyn_cast<llvm::StructType>(t); s && s->isPacked())
      return true;
    return llvm::any_of(t->subtypes(), [&](llvm::Type * q) { return packed(q); });
  };
  for (auto & f : m)
    for (auto & i : llvm::instructions(f))
    {
      auto p = llvm::getLoadStorePointerOperand(&i);
      auto g = p ? llvm::dyn_cast<llvm::GEPOperator>(p) : nullptr;
      if (!g || !packed(g->getSourceElementType()))
        continue;
      if (auto l = llvm::dyn_cast<llvm::LoadInst>(&i))
        l->setAlignment(llvm::Align(1));
      else
        llvm::cast<llvm::StoreInst>(i).setAlignment(llvm::Align(1));
    }
}
static void finishProgram(llvm::Module & m, Program & p)
{
  uint64_t h = 0;
  for (auto & f : m)
    for (auto & i : llvm::instructions(f))
    {
      p.opcodes[i.getOpcodeName()]++;
      h = mix(h, i.getOpcode() * 64 + i.getNumOperands());
    }
  p.sig = h;
}
bool makeProgram(uint64_t seed, uint64_t i, const std::string & kind, Program & p, std::string & why)
{
  Rng r(mix(seed, i));
  std::string k = kind;
  if (k == "auto")
  {
    static const char * ks[] = { "cfg", "mem", "loop", "mix", "mix", "mmem", "mmem", "mloop", "mgamma", "mcfg", "ops", "ops" };
    k = ks[r.below(12)];
  }
  bool mini = k[0] == 'm' && k != "mem" && k != "mix";
  auto prof = makeProfile(r, k);
  uint64_t gs = r.next();
  llvm::LLVMContext ctx;
  auto m = k == "ops" ? generateOps(ctx, gs) : mini ? generateMini(ctx, gs, k) : generateModule(ctx, gs, prof);
  std::string err;
  if (!verifies(*m, err))
  {
    why = "generator made an invalid module: " + err;
    p.text = moduleToString(*m);
    return false;
  }
  std::string pipe;
  if (prof.precondition)
  {
    auto m2 = parseModule(moduleToString(*m), ctx, err);
    pipe = preconditionModule(*m2, r, mini);
    std::string w;
    if (inSupportedSubset(*m2, &w))
      m = std::move(m2);
    else
      pipe = "none (" + pipe + " gave " + w + ")";
    repairAlignment(*m);
  }
  finishProgram(*m, p);
  p.text = moduleToString(*m);
  p.kind = k;
  p.desc = "kind=" + k + " pre=" + pipe;
  return runReference(p, why);
}
bool loadProgram(const std::string & path, Program & p, std::string & why)
{
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  p.text = ss.str();
  {
    std::stringstream ls(p.text);
    std::string l;
    while (std::getline(ls, l) && !l.empty() && l[0] == ';')
    {
      if (l.rfind("; passes: ", 0) == 0)
        p.headerPasses.push_back(l.substr(10));
      if (l.rfind("; seed: ", 0) == 0)
        p.tapSeed = strtoull(l.c_str() + 8, nullptr, 10);
      if (l.rfind("; nomask", 0) == 0)
        p.noMask = true;
    }
  }
  llvm::LLVMContext ctx;
  auto m = parseModule(p.text, ctx, why);
  if (!m)
    return false;
  std::string w;
  if (!inSupportedSubset(*m, &w))
  {
    why = "unsupported: " + w;
    return false;
  }
  p.cMain = m->getFunction("vh_main") == nullptr;
  if (auto e = m->getFunction(p.cMain ? "main" : "vh_main"); !e || e->isDeclaration())
  {
    why = "no entry function";
    return false;
  }
  p.desc = path;
  finishProgram(*m, p);
  return runReference(p, why);
}
std::vector<std::string> randomPasses(Rng & r, int maxLen, const std::string & kind)
{
  auto & names = passNames();
  std::vector<std::string> v;
  auto any = [&](int n) { for (int i = 0; i < n; i++) v.push_back(names[r.below(names.size())]); };
  auto from = [&](const std::vector<std::string> & l, int n) { for (int i = 0; i < n; i++) v.push_back(l[r.below(l.size())]); };
  int which = r.below(10);
  if ((kind == "mmem" || kind == "mem") && r.chance(40))
    which = 6;
  if ((kind == "mloop" || kind == "loop") && r.chance(40))
    which = 8;
  switch (which)
  {
  default: // anything
    any(r.range(1, maxLen));
    break;
  case 4: case 5: // the -O3 sequence with edits
  {
    v = o3Sequence();
    int edits = r.range(1, 4);
    for (int i = 0; i < edits && !v.empty(); i++)
      switch (r.below(3))
      {
      case 0: v.erase(v.begin() + r.below(v.size())); break;
      case 1: v.insert(v.begin() + r.below(v.size() + 1), names[r.below(names.size())]); break;
      default: std::swap(v[r.below(v.size())], v[r.below(v.size())]); break;
      }
    break;
  }
  case 6: case 7: // memory: encode the states, then use them
    if (r.chance(40))
      any(r.range(0, 2));
    v.push_back(r.chance(50) ? "AAAndersenRegionAware" : "AAAndersenAgnostic");
    if (r.chance(50))
      v.push_back("LoadChainSeparation");
    if (r.chance(50))
      v.push_back(r.chance(50) ? "CommonNodeElimination" : "StoreValueForwarding");
    from({ "LoadChainSeparation", "StoreValueForwarding", "IOBarrierElimination", "CommonNodeElimination", "NodePushOut",
           "NodePullIn", "InvariantValueRedirection", "DeadNodeElimination", "FunctionInlining", "AggregateAllocaSplitting",
           "LoopUnrolling", "LoopUnswitching", "NodeReduction" }, r.range(1, maxLen - 3));
    break;
  case 8: case 9: // loops: normalise, then transform them
    for (auto n : { "PredicateCorrelation", "DeadNodeElimination", "InvariantValueRedirection", "DeadNodeElimination" })
      v.push_back(n);
    if (r.chance(30))
      v.insert(v.begin(), names[r.below(names.size())]);
    from({ "LoopStrengthReduction", "LoopUnrolling", "LoopUnswitching", "ScalarEvolution", "NodePushOut", "IfConversion" }, r.range(1, 3));
    any(r.range(0, maxLen - 5));
    break;
  }
  return v;
}
// ScalarEvolution treats extensions as identities (known finding). Freezing the extended values hides them from it,
// so that everything else LoopStrengthReduction does is still checked.
static void maskExtensions(llvm::Module & m)
{
  std::vector<llvm::Instruction *> todo;
  for (auto & f : m)
    for (auto & bb : f)
      for (auto & i : bb)
        if (llvm::isa<llvm::SExtInst>(i) || llvm::isa<llvm::ZExtInst>(i) || llvm::isa<llvm::GetElementPtrInst>(i))
          todo.push_back(&i);
  for (auto i : todo)
  {
    bool gep = llvm::isa<llvm::GetElementPtrInst>(i);
    for (unsigned k = gep ? 1 : 0; k < i->getNumOperands(); k++)
    {
      auto o = i->getOperand(k);
      if (llvm::isa<llvm::Constant>(o) || (gep && o->getType()->isIntegerTy(64)))
        continue;
      i->setOperand(k, new llvm::FreezeInst(o, "", i));
    }
  }
}
static uint64_t strHash(const std::string & s)
{
  uint64_t h = s.size();
  for (unsigned char c : s)
    h = h * 1099511628211ull + c;
  return h;
}
extern std::function<void()> execAtFinish;
Outcome transformAndRun(const Program & p, const std::vector<std::string> & passes, const TransformHooks & h)
{
  auto shm = theShm();
  auto st = stageShm();
  shm->status = ExNone;
  shm->msg[0] = 0;
  shm->nev = 0;
  st->stage[0] = st->viol[0] = st->stats[0] = 0;
  st->changed = 0;
  int outFd = memfd_create("ir", 0);
  auto cr = runChild([&]
  {
    auto stage = [&](const std::string & s) { snprintf(st->stage, sizeof(st->stage), "%s", s.c_str()); };
    auto ctx = std::make_unique<llvm::LLVMContext>();
    std::string err;
    stage("parse");
    auto m = parseModule(p.text, *ctx, err);
    if (!m)
      _exit(96);
    if (std::find(passes.begin(), passes.end(), "LoopStrengthReduction") != passes.end() && !p.noMask && !getenv("VH_NO_MASK"))
      maskExtensions(*m);
    jlm::util::StatisticsCollector sc;
    stage("frontend");
    auto rm = toRvsdg(*m, sc);
    auto hook = [&](const std::string & s)
    {
      if (!h.afterStage)
        return;
      stage("monitor after " + s);
      auto v = h.afterStage(*rm, s);
      if (!v.empty())
      {
        snprintf(st->viol, sizeof(st->viol), "%s", v.c_str());
        _exit(90);
      }
    };
    hook("frontend");
    std::map<std::string, std::shared_ptr<jlm::rvsdg::Transformation>> cache;
    uint64_t before = strHash(jlm::rvsdg::view(&rm->Rvsdg().GetRootRegion()));
    for (size_t i = 0; i < passes.size(); i++)
    {
      stage("pass " + passes[i]);
      auto & t = cache[passes[i]];
      if (!t)
        t = makePass(passes[i]);
      t->Run(*rm, sc);
      uint64_t after = strHash(jlm::rvsdg::view(&rm->Rvsdg().GetRootRegion()));
      if (after != before)
      {
        st->changed++;
        childStat("changed:" + passes[i], 1);
      }
      childStat("ran:" + passes[i], 1);
      before = after;
      hook(passes[i]);
    }
    covDump();
    if (!h.toLlvm)
      _exit(0);
    if (h.beforeBackend)
    {
      stage("analysis");
      auto v = h.beforeBackend(*rm);
      if (!v.empty())
      {
        snprintf(st->viol, sizeof(st->viol), "%s", v.c_str());
        _exit(90);
      }
    }
    stage("backend");
    auto octx = std::make_unique<llvm::LLVMContext>();
    auto om = toLlvm(*rm, *octx, sc);
    if (h.afterBackend)
      h.afterBackend();
    auto text = moduleToString(*om);
    ftruncate(outFd, 0);
    pwrite(outFd, text.data(), text.size(), 0);
    stage("verify");
    if (!verifies(*om, err))
    {
      snprintf(st->viol, sizeof(st->viol), "invalid LLVM IR: %s", err.c_str());
      _exit(91);
    }
    stage("reparse");
    om.reset();
    octx = std::make_unique<llvm::LLVMContext>();
    om = parseModule(text, *octx, err);
    if (!om)
    {
      snprintf(st->viol, sizeof(st->viol), "output IR does not parse: %s", err.c_str());
      _exit(91);
    }
    covDump();
    if (!h.execute)
      _exit(0);
    stage("exec");
    if (!h.keepGraph)
      rm.reset();
    if (h.atFinish)
      execAtFinish = [&]
      {
        stage("judge");
        auto v = h.atFinish();
        if (!v.empty())
        {
          snprintf(st->viol, sizeof(st->viol), "%s", v.c_str());
          _exit(90);
        }
        stage("exec");
      };
    execInChild(std::move(om), std::move(octx), shm, p.ref.status == ExFuel ? 400000 : p.ref.ticks * 50 + 20000, p.cMain);
  }, 60 * cpuScale);
  Outcome o;
  {
    off_t n = lseek(outFd, 0, SEEK_END);
    o.outText.resize(n);
    if (n > 0)
      pread(outFd, &o.outText[0], n, 0);
    close(outFd);
  }
  for (auto & s : split(st->stats, ';'))
  {
    auto eq = s.rfind('=');
    if (eq != std::string::npos)
      o.stats[s.substr(0, eq)] += strtoull(s.c_str() + eq + 1, nullptr, 10);
  }
  o.changedPasses = st->changed;
  std::string stage = st->stage;
  if (cr.exited && cr.code == 96)
  {
    o.kind = Outcome::Inconclusive;
    o.detail = "could not parse the input";
    return o;
  }
  if (cr.exited && (cr.code == 90 || cr.code == 91))
  {
    o.kind = Outcome::Violation;
    o.key = std::string(cr.code == 90 ? "monitor:" : "ir:") + oneLine(std::string(st->viol)).substr(0, 160);
    o.detail = stage + ": " + st->viol;
    return o;
  }
  if (stage == "exec")
  {
    o.res = collect(shm, cr);
    if (o.res.status == ExTimeout)
    {
      o.kind = Outcome::Inconclusive;
      o.detail = "execution exceeded the CPU limit";
      return o;
    }
    if (o.res.status == ExJitError)
    {
      o.kind = Outcome::Violation;
      o.key = "exec:link";
      o.detail = "transformed program cannot be linked/compiled: " + o.res.msg;
      return o;
    }
    if (o.stats.count("overflows") && o.stats["overflows"])
      return o; // the monitor stopped the program because its log was full
    auto d = compareResults(p.ref, o.res);
    // a silent non-terminating reference is compared by its prefix only
    if (!d.empty())
    {
      o.kind = Outcome::Violation;
      o.key = "exec:behaviour";
      o.detail = d;
    }
    return o;
  }
  if (cr.cpuLimit)
  {
    o.kind = Outcome::Inconclusive;
    o.key = "hang:" + stage;
    o.detail = stage + " exceeded the CPU limit";
    return o;
  }
  if (!cr.exited || cr.code != 0)
  {
    o.kind = Outcome::Violation;
    o.key = "crash:" + stage + ":" + crashKey(cr);
    o.detail = stage + ": " + crashKey(cr) + " | " + cr.err.substr(0, 600);
  }
  return o;
}
std::string writeRepro(const Report & r, const std::string & prop, const std::string & caseId, const std::string & mode,
                       const Program & p, const std::vector<std::string> & passes, const std::string & detail)
{
  if (r.reproDir.empty())
    return "-";
  mkdir(r.reproDir.c_str(), 0755);
  std::string f = r.reproDir + "/" + prop + "-" + caseId + ".ll";
  std::ofstream o(f);
  o << "; replay: /verif/check.py replay " << f << "\n; mode: " << mode << "\n; passes: " << join(passes, ",")
    << (p.noMask ? "\n; nomask" : "") << environmentLines()
    << (p.tapSeed != 1 ? "\n; seed: " + std::to_string(p.tapSeed) : "") << "\n; program: " << p.desc << "\n; what: " << oneLine(detail) << "\n"
    << p.text;
  return f;
}
}
