#pragma once
#include "common.hpp"
#include "proc.hpp"
#include "jlmapi.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
namespace vh
{
struct Args
{
  std::map<std::string, std::string> kv;
  std::vector<std::string> pos;
  char ** argv = nullptr;
  std::string get(const std::string & k, const std::string & d = "") const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  uint64_t num(const std::string & k, uint64_t d) const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 0);
  }
};
struct Program
{
  std::string text;   // LLVM IR
  std::string desc;   // how it was made
  std::string kind;
  bool cMain = false;
  bool noMask = false;               // header '; nomask'
  uint64_t tapSeed = 1;              // header '; seed: ...'
  std::vector<std::string> headerPasses; // header '; passes: ...'
  ExecResult ref;
  uint64_t sig = 0;   // structural hash
  std::map<std::string, int> opcodes;
};
struct Report
{
  std::map<std::string, uint64_t> stats;
  std::string reproDir;
  int violations = 0;
  void stat(const std::string & k, uint64_t n = 1) { stats[k] += n; }
  void violation(const std::string & caseId, const std::string & key, const std::string & detail, const std::string & repro);
  void inconclusive(const std::string & caseId, const std::string & why);
  void flush();
};
extern int cpuScale;
// makes program number i of the stream; returns false if discarded (reason in why)
bool makeProgram(uint64_t seed, uint64_t i, const std::string & kind, Program & p, std::string & why);
bool loadProgram(const std::string & path, Program & p, std::string & why);
bool runReference(Program & p, std::string & why);
struct Outcome
{
  enum { Ok, Violation, Inconclusive } kind = Ok;
  std::string key, detail;
  std::string outText;
  ExecResult res;
  uint64_t changedPasses = 0;
  std::map<std::string, uint64_t> stats;
};
struct TransformHooks
{
  // called in the child after conversion and after each pass; a non-empty string is a violation
  std::function<std::string(jlm::llvm::LlvmRvsdgModule &, const std::string & stage)> afterStage;
  // called in the child before the conversion to LLVM; may instrument the graph
  std::function<std::string(jlm::llvm::LlvmRvsdgModule &)> beforeBackend;
  std::function<void()> afterBackend;
  // called in the child when the program has run
  std::function<std::string()> atFinish;
  bool keepGraph = false;
  bool mayStop = false; // the monitor may stop the program early
  bool execute = true;
  bool toLlvm = true;
};
Outcome transformAndRun(const Program & p, const std::vector<std::string> & passes, const TransformHooks & h);
std::string writeRepro(const Report & r, const std::string & prop, const std::string & caseId, const std::string & mode,
                       const Program & p, const std::vector<std::string> & passes, const std::string & detail);
std::vector<std::string> randomPasses(Rng & r, int maxLen, const std::string & kind);
// which stage the child is in; lives in shared memory
struct StageShm { char stage[256]; char viol[8192]; uint64_t changed; char stats[4096]; };
StageShm * stageShm();
void childStat(const std::string & k, uint64_t n);
std::vector<std::string> split(const std::string & s, char c);
std::string join(const std::vector<std::string> & v, const char * sep);
}
