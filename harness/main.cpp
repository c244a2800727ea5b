#include <jlm/rvsdg/view.hpp>
#include <llvm/AsmParser/Parser.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include "diff.hpp"
#include "modcheck.hpp"
#include "modes.hpp"
#include "tap.hpp"
#include <unistd.h>
#include <fstream>
using namespace vh;

static void commonCase(Report & rep, const Program & p, uint64_t i)
{
  rep.stat("programs");
  rep.stat(std::string("ref.") + statusName(p.ref.status));
  rep.stat("ref.events", p.ref.nev);
  rep.stat("ref.blocks", p.ref.ticks);
  for (auto & kv : p.opcodes)
    rep.stat("op." + kv.first, kv.second);
  printf("CASE\t%llu\t%016llx\t%d\t%s\n", (unsigned long long)i, (unsigned long long)mix(p.sig, p.ref.hash),
         p.ref.nev >= 4 && p.ref.ticks >= 10 ? 1 : 0, p.desc.c_str());
}

// rt / opt
static int diffMode(const Args & a, const std::string & mode)
{
  Report rep;
  rep.reproDir = a.get("repro");
  uint64_t seed = a.num("seed", 1), from = a.num("from", 0), to = a.num("to", 10);
  std::string kind = a.get("kind", "auto"), prop = a.get("prop", "X");
  int nseq = a.num("nseq", 2);
  auto corpus = split(a.get("corpus"), ',');
  auto handle = [&](const Program & p, const std::string & cid, const std::vector<std::string> & passes)
  {
    TransformHooks h;
    modeHooks(mode, p, h);
    auto o = transformAndRun(p, passes, h);
    if (o.kind == Outcome::Inconclusive)
    {
      cpuScale = 3;
      o = transformAndRun(p, passes, h);
      cpuScale = 1;
      if (o.kind == Outcome::Inconclusive && o.key.substr(0, 5) == "hang:")
      {
        o.kind = Outcome::Violation; // the compiler did not finish twice, the second time with three times the CPU time
      }
    }
    rep.stat("runs");
    for (auto & kv : o.stats)
      rep.stat(kv.first, kv.second);
    if (o.kind == Outcome::Ok)
    {
      rep.stat("out.events", o.res.nev);
      auto e = modePost(mode, p, passes, o, rep);
      if (!e.empty())
      {
        o.kind = Outcome::Violation;
        o.key = "contract:" + e.substr(0, 100);
        o.detail = e;
      }
    }
    if (o.kind == Outcome::Violation)
    {
      auto f = writeRepro(rep, prop, cid, mode, p, passes, o.detail);
      std::string pk = passes.empty() ? "none" : (passes.size() == 1 ? passes[0] : "seq");
      rep.violation(cid, o.key + "|" + pk, o.detail + " [passes " + join(passes, ",") + "] [" + p.desc + "]", f);
    }
    else if (o.kind == Outcome::Inconclusive)
      rep.inconclusive(cid, o.detail);
  };
  if (!corpus.empty())
    to = std::min<uint64_t>(to, corpus.size());
  for (uint64_t i = from; i < to; i++)
  {
    Program p;
    std::string why;
    bool ok = corpus.empty() ? makeProgram(seed, i, kind, p, why) : (i < corpus.size() && loadProgram(corpus[i], p, why));
    if (!ok)
    {
      rep.stat("discarded");
      printf("DISCARD\t%llu\t%s\n", (unsigned long long)i, why.substr(0, 300).c_str());
      if (getenv("VH_DUMP"))
        fputs(p.text.c_str(), stderr);
      continue;
    }
    commonCase(rep, p, i);
    Rng r(mix(seed ^ 0x5151, i));
    std::string cid = std::to_string(i);
    if (!corpus.empty())
    {
      auto b = corpus[i].substr(corpus[i].rfind('/') + 1);
      cid = a.get("cprefix", "corpus-") + b.substr(0, b.rfind('.'));
    }
    if (mode != "rt")
      for (size_t k = 0; k < p.headerPasses.size(); k++)
        handle(p, cid + "-h" + std::to_string(k), split(p.headerPasses[k], ','));
    // loops without side effects need not be preserved
    if (a.kv.count("headeronly") || (!corpus.empty() && p.ref.status == ExFuel))
      continue;
    if (mode == "mod")
    {
      if (i % 4 != 0)
        p.text = decorate(p.text, mix(seed, i));
      handle(p, cid, {});
      handle(p, cid + "-s", { passNames()[i % passNames().size()] });
      handle(p, cid + "-r", randomPasses(r, 6, p.kind));
    }
    else if (mode == "rt")
      handle(p, cid, {});
    else if (mode == "order")
    {
      std::vector<std::string> ps;
      static const char * mem[] = { "AAAndersenRegionAware", "AAAndersenAgnostic" };
      static const char * after[] = { "LoadChainSeparation", "StoreValueForwarding", "IOBarrierElimination", "CommonNodeElimination", "NodePushOut",
                                      "NodePullIn", "InvariantValueRedirection", "DeadNodeElimination" };
      if (r.chance(40))
        ps = randomPasses(r, 4, p.kind);
      if (!r.chance(10))
        ps.push_back(mem[r.below(2)]);
      for (int n = r.range(0, 4); n > 0; n--)
        ps.push_back(after[r.below(8)]);
      for (int k = 0; k < nseq; k++)
      {
        p.tapSeed = (r.next() >> 20) + 2;
        if (k == 0)
          p.tapSeed = p.tapSeed / 5 * 5;
        handle(p, cid + "-t" + std::to_string(k), ps);
      }
    }
    else if (isTapMode(mode))
    {
      for (int k = 0; k < nseq; k++)
      {
        p.tapSeed = (r.next() >> 20) + 2;
        handle(p, cid + "-t" + std::to_string(k), k == 0 ? std::vector<std::string>{} : r.chance(20) ? o3Sequence() : randomPasses(r, 4, p.kind));
      }
    }
    else if (a.kv.count("passes"))
      handle(p, cid, split(a.get("passes"), ','));
    else
    {
      auto & names = passNames();
      // every pass on its own in turn, a random sequence, the -O3 sequence
      handle(p, cid + "-s", { names[i % names.size()] });
      for (int k = 0; k < nseq; k++)
        handle(p, cid + "-r" + std::to_string(k), randomPasses(r, 8, p.kind));
      handle(p, cid + "-o3", o3Sequence());
    }
  }
  rep.flush();
  return 0;
}

static int replay(const Args & a)
{
  Program p;
  std::string why;
  std::string f = a.pos[0];
  std::string mode = a.get("mode"), passes = a.get("passes");
  std::ifstream in(f);
  std::string l;
  bool again = false;
  while (std::getline(in, l) && !l.empty() && l[0] == ';')
  {
    if (l.rfind("; mode: ", 0) == 0 && mode.empty())
      mode = l.substr(8);
    if (l.rfind("; passes: ", 0) == 0 && passes.empty())
      passes = l.substr(10);
    if (l.rfind("; env: ", 0) == 0 && l.find('=') != std::string::npos)
    { // read before main starts, hence the restart
      auto n = l.substr(7, l.find('=') - 7), v = l.substr(l.find('=') + 1);
      auto now = getenv(n.c_str());
      if (!now || v != now)
      {
        setenv(n.c_str(), v.c_str(), 1);
        again = true;
      }
    }
  }
  if (again)
    execv("/proc/self/exe", a.argv);
  if (!loadProgram(f, p, why))
  {
    printf("cannot load: %s\n", why.c_str());
    return 2;
  }
  printf("mode=%s passes=%s\nreference: %s\n", mode.c_str(), passes.c_str(), describe(p.ref, a.num("ev", 3)).c_str());
  TransformHooks h;
  modeHooks(mode, p, h);
  auto o = transformAndRun(p, split(passes, ','), h);
  Report rep;
  if (o.kind == Outcome::Ok)
  {
    auto e = modePost(mode, p, split(passes, ','), o, rep);
    if (!e.empty())
    {
      o.kind = Outcome::Violation;
      o.detail = e;
    }
  }
  if (a.kv.count("out"))
  {
    std::ofstream of(a.get("out"));
    of << o.outText;
  }
  printf("outcome=%d key=%s\ndetail=%s\n%s\n", (int)o.kind, o.key.c_str(), o.detail.c_str(), describe(o.res, a.num("ev", 3)).c_str());
  for (auto & kv : o.stats)
    printf("  %s=%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  return o.kind == Outcome::Violation ? 1 : 0;
}

// debugging aid: run the passes in this process and print the graph after each
static int traceCmd(const Args & a)
{
  std::ifstream in(a.pos[0]);
  std::string text((std::istreambuf_iterator<char>(in)), {});
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic d;
  auto m = llvm::parseAssemblyString(text, d, ctx);
  if (!m)
    return 2;
  jlm::util::StatisticsCollector sc;
  auto rm = toRvsdg(*m, sc);
  auto dump = [&](const char * n)
  {
    printf("=== %s\n", n);
    jlm::util::AnnotationMap am;
    puts(jlm::rvsdg::view(&rm->Rvsdg().GetRootRegion()).c_str());
    fflush(stdout);
  };
  dump("converted");
  for (auto & n : split(a.get("passes"), ','))
  {
    runPass(*rm, n, sc);
    dump(n.c_str());
  }
  llvm::LLVMContext c2;
  auto o = toLlvm(*rm, c2, sc);
  std::string os;
  llvm::raw_string_ostream r(os);
  o->print(r, nullptr);
  puts(os.c_str());
  return 0;
}

int main(int argc, char ** argv)
{
  Args a;
  a.argv = argv;
  for (int i = 2; i < argc; i++)
  {
    std::string s = argv[i];
    if (s.rfind("--", 0) == 0)
    {
      auto eq = s.find('=');
      if (eq != std::string::npos)
        a.kv[s.substr(2, eq - 2)] = s.substr(eq + 1);
      else if (i + 1 < argc)
        a.kv[s.substr(2)] = argv[++i];
    }
    else
      a.pos.push_back(s);
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "gen")
  {
    Program p;
    std::string why;
    bool ok = makeProgram(a.num("seed", 1), a.num("i", 0), a.get("kind", "auto"), p, why);
    fputs(p.text.c_str(), stdout);
    fprintf(stderr, "%s %s\n%s\n", ok ? "ok" : why.c_str(), p.desc.c_str(), describe(p.ref).c_str());
    return ok ? 0 : 1;
  }
  if (cmd == "trace")
    return traceCmd(a);
  if (cmd == "replay")
    return replay(a);
  if (cmd == "o3")
  {
    printf("%s\n", join(o3Sequence(), ",").c_str());
    return 0;
  }
  return runMode(cmd, a, diffMode);
}
