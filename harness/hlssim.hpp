#pragma once
#include "common.hpp"
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <deque>
namespace vh
{
struct SimRegion { uint8_t * base; size_t size; std::string name; };
struct SimResult
{
  std::string err;       // not empty: the circuit misbehaved
  std::string inconclusive;
  uint64_t ret = 0;
  uint64_t cycles = 0;
  uint64_t fires = 0, requests = 0;
};
/** A cycle accurate simulation of the circuit a converted function describes. */
class HlsSim
{
public:
  struct Impl;
  /** slack: every backedge of a loop has a buffer of unlimited size */
  HlsSim(jlm::llvm::LlvmRvsdgModule & rm, Rng & r, bool slack = false);
  ~HlsSim();
  /** empty if the circuit is well formed */
  std::string setupError, unsupported;
  std::map<std::string, uint64_t> census;
  size_t components() const;
  size_t ports() const;
  void dump();
  SimResult run(const std::vector<uint64_t> & args, const std::map<std::string, uint64_t> & globals, std::vector<SimRegion> & memory,
                int memLatency, int stallPct, bool reorder);
private:
  std::unique_ptr<Impl> I;
};
}
