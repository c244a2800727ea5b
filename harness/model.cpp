// Runs the cases of the model-based modes: each case in a child process, with the model next to the code under test.
#include "model.hpp"
#include <unistd.h>
#include <fstream>
namespace vh
{
void Case::bad(const std::string & what)
{
  std::string s = what;
  for (auto & c : s)
    if (c == '\n' || c == '\t')
      c = ' ';
  printf("\nBAD %s\n", s.c_str());
  fflush(stdout);
  _exit(0);
}
int modelMode(const Args & a, const std::string & mode, int cpuSec, const std::function<void(Rng &, Case &)> & fn)
{
  Report rep;
  rep.reproDir = a.get("repro");
  uint64_t seed = a.num("seed", 1), from = a.num("from", 0), to = a.num("to", 10);
  bool bad = false;
  for (uint64_t i = from; i < to; i++)
  {
    auto run = [&](int cpu)
    {
      return runChild([&]
      {
        Rng r(mix(seed ^ 0x6d0de1, i));
        Case c;
        c.index = i;
        fn(r, c);
        printf("\nOK %llx %d\n", (unsigned long long)c.hash, c.nonTrivial ? 1 : 0);
        for (auto & kv : c.stats)
          printf("S %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
      }, cpu);
    };
    auto r = run(cpuSec);
    if (r.cpuLimit)
      r = run(3 * cpuSec);
    std::string first, ok;
    for (auto & l : split(r.out, '\n'))
      if (l.rfind("BAD ", 0) == 0 && first.empty())
        first = l.substr(4);
      else if (l.rfind("OK ", 0) == 0)
        ok = l.substr(3);
      else if (l.rfind("S ", 0) == 0)
      {
        auto w = split(l, ' ');
        if (w.size() == 3)
          rep.stat(w[1], strtoull(w[2].c_str(), nullptr, 10));
      }
    std::string key = first.substr(0, 60);
    if (!r.exited || r.code)
    {
      first = "crash: " + crashKey(r);
      key = first;
    }
    else if (first.empty() && ok.empty())
    {
      first = key = "the case ended without a result";
    }
    auto w = split(ok, ' ');
    std::string id = mode + std::to_string(i);
    if (w.size() == 2)
      printf("CASE\t%s\t%s\t%s\t%s\n", id.c_str(), w[0].c_str(), w[1].c_str(), mode.c_str());
    else
      printf("CASE\t%s\t%llx\t1\t%s\n", id.c_str(), (unsigned long long)i, mode.c_str());
    if (!first.empty())
    {
      bad = true;
      std::string f = "-";
      if (!rep.reproDir.empty())
      {
        f = rep.reproDir + "/" + id + ".txt";
        std::ofstream o(f);
        o << "; replay: /verif/check.py replay " << f << "\n; case: " << mode << " --seed " << seed << " --from " << i << " --to " << i + 1 << "\n; what: " << first << "\n" << r.err.substr(0, 4000);
      }
      rep.violation(id, key, first, f);
    }
  }
  rep.flush();
  return bad && a.kv.count("replay") ? 1 : 0;
}
}
