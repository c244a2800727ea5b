#pragma once
#include "common.hpp"
#include "diff.hpp"
#include "proc.hpp"
namespace vh
{
// one case of a comparison of code under test with a model; runs in a child process
struct Case
{
  uint64_t hash = 0;
  uint64_t index = 0;
  bool nonTrivial = true;
  std::map<std::string, uint64_t> stats;
  [[noreturn]] void bad(const std::string & what);
  void stat(const std::string & k, uint64_t n = 1) { stats[k] += n; }
  void seen(uint64_t h) { hash = mix(hash, h); }
  void seen(const std::string & s) { hash = mix(hash, std::hash<std::string>()(s)); }
};
int modelMode(const Args & a, const std::string & mode, int cpuSec, const std::function<void(Rng &, Case &)> & fn);
int bitsMode(const Args & a);
int bitGraphMode(const Args & a);
int contMode(const Args & a);
int apiMode(const Args & a);
int hlsMode(const Args & a);
int hlsKnownMode(const Args & a);
}
