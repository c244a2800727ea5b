#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace llvm { class Module; class LLVMContext; }

namespace vh
{
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below(b - a + 1); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template<class T> T & pick(std::vector<T> & v) { return v[below(v.size())]; }
  template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- generation
struct GenProfile
{
  bool floats = true, vectors = true, exotic = true, heap = true, volatiles = true;
  bool irreducible = true, endless = true, recursion = true, indirect = true, aggregates = true;
  bool memIntrinsics = true, intrinsics = true, undefs = true, varargs = true, extptr = true;
  bool linkages = true;
  bool phiform = false;
  int functions = 4;   // number of functions besides main
  int stmts = 10;      // statement budget per function
  int loopTrip = 6;
  int memPatPct = 3;   // share of dense access patterns of one object
  int ivPct = 25;      // share of loops in canonical induction variable form
  bool precondition = true;
  bool hls = false;    // restrict to what the HLS flow accepts
};
GenProfile makeProfile(Rng & r, const std::string & kind);
std::unique_ptr<llvm::Module> generateModule(llvm::LLVMContext & ctx, uint64_t seed, const GenProfile & p);
// runs a random LLVM pipeline over the module to vary the shape of the IR
std::string preconditionModule(llvm::Module & m, Rng & r, bool mini = false);
// small dense programs: flavor is mmem, mloop, mgamma or mcfg
std::unique_ptr<llvm::Module> generateMini(llvm::LLVMContext & ctx, uint64_t seed, const std::string & flavor);
std::string miniPipeline(Rng & r);
// programs over many types
std::unique_ptr<llvm::Module> generateOps(llvm::LLVMContext & ctx, uint64_t seed);
bool inSupportedSubset(llvm::Module & m, std::string * why);

std::string moduleToString(const llvm::Module & m);
std::unique_ptr<llvm::Module> parseModule(const std::string & text, llvm::LLVMContext & ctx, std::string & err);
bool verifies(const llvm::Module & m, std::string & err);

// ---------------------------------------------------------------- execution
struct Event { uint32_t kind; uint32_t a; uint64_t b, c; };
enum EvKind : uint32_t {
  EvI32 = 1, EvI64, EvF64, EvPeek, EvPoke, EvCb, EvVa, EvVolLoad, EvVolStore, EvKeep, EvGlob, EvExit, EvIdent, EvPeekF, EvReenter
};
enum ExecStatus : uint32_t {
  ExNone = 0,     // never finished (crash)
  ExReturned,     // entry returned
  ExExited,       // called exit or external call limit reached
  ExFuel,         // ran out of fuel
  ExCrash,        // trap or signal
  ExTimeout,
  ExJitError,
};
struct Shm
{
  uint32_t status;
  uint32_t stage;        // 0: before, 1: jlm, 2: exec
  uint64_t ret;
  uint64_t ticks;
  uint64_t fuel;
  uint64_t nev;
  uint64_t hash;
  uint64_t extLimit;
  char msg[4096];
  static constexpr size_t MaxEv = 20000;
  Event ev[MaxEv];
};
Shm * newShm();
void freeShm(Shm *);

struct ExecResult
{
  uint32_t status = ExNone;
  uint64_t ret = 0, ticks = 0, nev = 0, hash = 0;
  std::vector<Event> ev;
  std::string out;   // captured stdout
  std::string msg;
};
// to be called in a forked child: JIT-compiles and runs; results in shm; never returns
[[noreturn]] void execInChild(std::unique_ptr<llvm::Module> m, std::unique_ptr<llvm::LLVMContext> ctx,
                              Shm * shm, uint64_t fuel, bool cMain);
std::string describe(const ExecResult & r, size_t maxEv = 12);
// empty if equal
std::string compareResults(const ExecResult & ref, const ExecResult & got);
const char * statusName(uint32_t s);

// host implementation of the traced externals; also used by the RVSDG interpreter
extern "C" void vhLog(uint32_t kind, uint32_t a, uint64_t b, uint64_t c);
uint64_t mix(uint64_t a, uint64_t b);
}
