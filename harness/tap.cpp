// Monitors of analysis results: the program's own RVSDG is instrumented after the analyses ran. Calls to the monitor are added that
// report the values of pointers, addresses of accesses and values of loop variables together with the execution of the region they
// belong to. The instrumented graph goes through jlm's backend and runs in the JIT. When the run ends, what was observed is
// compared with what the analyses claimed.
#include "tap.hpp"
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/llvm/ir/types.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.hpp>
#include <jlm/llvm/opt/ScalarEvolution.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <jlm/rvsdg/view.hpp>
#include <algorithm>
#include <fstream>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <sys/mman.h>
#include <unistd.h>

namespace vh
{
extern std::function<void()> execAtFinish;
extern std::vector<std::pair<std::string, void *>> execSymbols;
[[noreturn]] void execStop();
namespace
{
using namespace jlm;
using jlm::llvm::aa::PointsToGraph;
namespace jl = jlm::llvm;

// ---------------------------------------------------------------- what is observed at run time
struct Rec { uint32_t kind, id; uint64_t tok, v; };
enum { KPtr, KAcc, KVal };
std::vector<Rec> recs;
struct Region0 { uint64_t parent; uint32_t region; };
std::vector<Region0> toks; // token - 1 -> execution of a region
struct Obj { uint64_t base, size; int mem; };
std::map<uint64_t, Obj> objs; // objects by address; addresses are never reused
std::vector<Obj> objList;
char * arena = nullptr;
uint64_t arenaUsed = 0;
constexpr uint64_t arenaSize = 256ull << 20;
constexpr size_t maxRecs = 400000;
bool overflow = false;
struct AllocInfo { uint64_t elem, align; int mem; };
std::vector<AllocInfo> allocInfo; // by id
char * fresh(uint64_t size, uint64_t align)
{
  align = std::max<uint64_t>(align, 16);
  arenaUsed = (arenaUsed + align - 1) / align * align;
  if (arenaUsed + size + 2048 > arenaSize)
  {
    overflow = true;
    execStop();
  }
  auto p = arena + arenaUsed;
  arenaUsed += size + 1024; // never adjacent
  return p;
}
void addObj(uint64_t base, uint64_t size, int mem)
{
  objs[base] = { base, size, mem };
}
void push(Rec r)
{
  if (recs.size() >= maxRecs)
  {
    overflow = true;
    execStop();
  }
  recs.push_back(r);
}
extern "C" {
uint64_t vh_region(uint64_t parent, uint32_t region)
{
  if (toks.size() >= maxRecs)
  {
    overflow = true;
    execStop();
  }
  toks.push_back({ parent, region });
  return toks.size();
}
void vh_tap_ptr(uint64_t tok, uint32_t id, char * p) { push({ KPtr, id, tok, (uint64_t)p }); }
void vh_tap_acc(uint64_t tok, uint32_t id, char * p) { push({ KAcc, id, tok, (uint64_t)p }); }
void vh_tap_i1(uint64_t tok, uint32_t id, uint32_t v) { push({ KVal, id, tok, v & 1 }); }
void vh_tap_i8(uint64_t tok, uint32_t id, uint32_t v) { push({ KVal, id, tok, v & 0xff }); }
void vh_tap_i16(uint64_t tok, uint32_t id, uint32_t v) { push({ KVal, id, tok, v & 0xffff }); }
void vh_tap_i32(uint64_t tok, uint32_t id, uint32_t v) { push({ KVal, id, tok, v }); }
void vh_tap_i64(uint64_t tok, uint32_t id, uint64_t v) { push({ KVal, id, tok, v }); }
char * vh_tap_alloca64(uint64_t tok, uint32_t id, uint64_t n, char *)
{
  auto & a = allocInfo.at(id);
  auto p = fresh(n * a.elem, a.align);
  addObj((uint64_t)p, n * a.elem, a.mem);
  return p;
}
char * vh_tap_alloca32(uint64_t tok, uint32_t id, uint32_t n, char * p) { return vh_tap_alloca64(tok, id, n, p); }
void vh_tap_malloc64(uint64_t tok, uint32_t id, uint64_t n, char * p) { addObj((uint64_t)p, n, allocInfo.at(id).mem); }
void vh_tap_malloc32(uint64_t tok, uint32_t id, uint32_t n, char * p) { addObj((uint64_t)p, n, allocInfo.at(id).mem); }
void vh_tap_obj(uint64_t, uint32_t id, char * p) { addObj((uint64_t)p, allocInfo.at(id).elem, allocInfo.at(id).mem); }
void * vh_malloc(size_t n) { return fresh(n + 8, 16); }
void * vh_calloc(size_t n, size_t m) { auto p = fresh(n * m + 8, 16); memset(p, 0, n * m); return p; }
void * vh_realloc(void * q, size_t n)
{
  auto p = fresh(n + 8, 16);
  if (q)
    memcpy(p, q, std::min<uint64_t>(n, arena + arenaUsed - (char *)q));
  return p;
}
void vh_free(void *) {}
}

// ---------------------------------------------------------------- what was claimed
struct Target { bool known = false; bool allExternal = false; std::unordered_set<int> mems; std::string name; };
std::vector<Target> ptrTaps;                    // by id
std::vector<bool> memExternal;                  // by memory node
std::vector<std::string> memNames;
struct Access { const rvsdg::Output * ptr; uint64_t size; const rvsdg::Region * region; std::string name; };
std::vector<Access> accs;
struct Claim { uint32_t a, b; int aa; bool must; };
std::vector<Claim> claims;
std::unordered_map<const rvsdg::Region *, uint32_t> regionIds;
std::vector<std::pair<const rvsdg::Output *, unsigned>> valTaps; // output and width
std::unordered_map<const rvsdg::Output *, uint32_t> valIds;
std::unordered_map<const rvsdg::Output *, std::unique_ptr<jl::SCEVChainRecurrence>> chrecs;
StageShm * shm0;
std::string tapMode;
bool noMask0 = false;

std::string regionPath(const rvsdg::Region & r)
{
  std::string s;
  for (auto q = &r; q->node(); q = q->node()->region())
    s = "/" + q->node()->DebugString() + "#" + std::to_string(q->index()) + s;
  return s;
}
std::string outName(const rvsdg::Output & o)
{
  std::string n;
  if (auto node = rvsdg::TryGetOwnerNode<rvsdg::Node>(o))
    n = " of " + node->DebugString();
  return o.debug_string() + n + " in " + regionPath(*o.region());
}

// ---------------------------------------------------------------- instrumentation
struct Fns
{
  rvsdg::Graph & g;
  std::map<std::string, rvsdg::Output *> imports;
  std::map<std::string, std::shared_ptr<const rvsdg::FunctionType>> types;
  using T = std::shared_ptr<const rvsdg::Type>;
  T i64 = rvsdg::BitType::Create(64), i32 = rvsdg::BitType::Create(32), ptr = jl::PointerType::Create();
  void add(const std::string & n, std::vector<T> ps, std::vector<T> rs, void * impl)
  {
    ps.push_back(jl::IOStateType::Create());
    ps.push_back(jl::MemoryStateType::Create());
    rs.push_back(jl::IOStateType::Create());
    rs.push_back(jl::MemoryStateType::Create());
    auto ft = rvsdg::FunctionType::Create(ps, rs);
    imports[n] = &jl::LlvmGraphImport::createFunctionImport(g, ft, n, jl::Linkage::externalLinkage, jl::CallingConvention::C);
    types[n] = ft;
    execSymbols.push_back({ n, impl });
  }
  explicit Fns(rvsdg::Graph & graph) : g(graph)
  {
#define F(n, ps, rs) add(#n, std::vector<T> ps, std::vector<T> rs, (void *)&n)
    F(vh_region, ({ i64, i32 }), ({ i64 }));
    F(vh_tap_ptr, ({ i64, i32, ptr }), ({}));
    F(vh_tap_acc, ({ i64, i32, ptr }), ({}));
    F(vh_tap_i1, ({ i64, i32, rvsdg::BitType::Create(1) }), ({}));
    F(vh_tap_i8, ({ i64, i32, rvsdg::BitType::Create(8) }), ({}));
    F(vh_tap_i16, ({ i64, i32, rvsdg::BitType::Create(16) }), ({}));
    F(vh_tap_i32, ({ i64, i32, i32 }), ({}));
    F(vh_tap_i64, ({ i64, i32, i64 }), ({}));
    F(vh_tap_alloca64, ({ i64, i32, i64, ptr }), ({ ptr }));
    F(vh_tap_alloca32, ({ i64, i32, i32, ptr }), ({ ptr }));
    F(vh_tap_malloc64, ({ i64, i32, i64, ptr }), ({}));
    F(vh_tap_malloc32, ({ i64, i32, i32, ptr }), ({}));
    F(vh_tap_obj, ({ i64, i32, ptr }), ({}));
#undef F
    execSymbols.push_back({ "malloc", (void *)&vh_malloc });
    execSymbols.push_back({ "calloc", (void *)&vh_calloc });
    execSymbols.push_back({ "realloc", (void *)&vh_realloc });
    execSymbols.push_back({ "free", (void *)&vh_free });
  }
};
// the values the instrumentation of one region needs
struct Env
{
  std::map<std::string, rvsdg::Output *> fns;
  rvsdg::Output * io = nullptr, * parent = nullptr, * mem = nullptr, * tok = nullptr;
  std::vector<rvsdg::Output *> live; // memory states that keep the instrumentation alive
};
struct Instrument
{
  Fns fns;
  std::unordered_map<const rvsdg::Output *, uint32_t> ptrIds;
  std::unordered_map<const rvsdg::Node *, uint32_t> allocIds, accIds;
  explicit Instrument(rvsdg::Graph & g) : fns(g) {}
  std::vector<rvsdg::Output *> call(Env & e, const std::string & f, std::vector<rvsdg::Output *> as)
  {
    as.push_back(e.io);
    as.push_back(e.mem);
    auto rs = jl::CallOperation::Create(e.fns.at(f), fns.types.at(f), as);
    e.live.push_back(rs.back());
    return rs;
  }
  rvsdg::Output * constant(rvsdg::Region & r, unsigned w, uint64_t v)
  {
    return jl::IntegerConstantOperation::Create(r, w, (int64_t)v).output(0);
  }
  // returns a memory state that depends on everything that was added
  rvsdg::Output * region(rvsdg::Region & r, Env e)
  {
    // decide what to tap before anything is added
    std::vector<std::pair<rvsdg::Output *, uint32_t>> ptrs, vals;
    std::vector<rvsdg::Node *> nodes;
    auto consider = [&](rvsdg::Output & o)
    {
      if (auto it = ptrIds.find(&o); it != ptrIds.end())
        ptrs.push_back({ &o, it->second });
      if (auto it = valIds.find(&o); it != valIds.end())
        vals.push_back({ &o, it->second });
    };
    for (auto a : r.Arguments())
      consider(*a);
    for (auto & n : r.Nodes())
    {
      nodes.push_back(&n);
      for (auto & o : n.Outputs())
        consider(o);
    }
    e.mem = jl::UndefValueOperation::Create(r, jl::MemoryStateType::Create());
    auto rid = regionIds.emplace(&r, regionIds.size()).first->second;
    e.tok = call(e, "vh_region", { e.parent ? e.parent : constant(r, 64, 0), constant(r, 32, rid) })[0];
    // objects first: their addresses are replaced
    std::unordered_map<rvsdg::Output *, rvsdg::Output *> replaced;
    for (auto n : nodes)
    {
      auto it = allocIds.find(n);
      if (it == allocIds.end())
        continue;
      auto count = n->input(0)->origin();
      auto w = std::static_pointer_cast<const rvsdg::BitType>(count->Type())->nbits();
      auto sw = std::to_string(w);
      if (jlm::rvsdg::is<jl::AllocaOperation>(n))
      {
        auto p = n->output(0);
        std::vector<rvsdg::Input *> users;
        for (auto & u : p->Users())
          users.push_back(&u);
        auto q = call(e, "vh_tap_alloca" + sw, { e.tok, constant(r, 32, it->second), count, p })[0];
        for (auto u : users)
          u->divert_to(q);
        replaced[p] = q;
      }
      else
        call(e, "vh_tap_malloc" + sw, { e.tok, constant(r, 32, it->second), count, n->output(0) });
    }
    auto value = [&](rvsdg::Output * o) { auto it = replaced.find(o); return it == replaced.end() ? o : it->second; };
    for (auto [o, id] : ptrs)
      call(e, "vh_tap_ptr", { e.tok, constant(r, 32, id), value(o) });
    for (auto [o, id] : vals)
    {
      if (valTaps[id].second == 0)
        continue;
      call(e, "vh_tap_i" + std::to_string(valTaps[id].second), { e.tok, constant(r, 32, id), o });
    }
    for (auto n : nodes)
      if (auto it = accIds.find(n); it != accIds.end())
        call(e, "vh_tap_acc", { e.tok, constant(r, 32, it->second), n->input(0)->origin() });
    for (auto n : nodes)
    {
      if (auto g = dynamic_cast<rvsdg::GammaNode *>(n))
      {
        std::vector<Env> sub(g->nsubregions());
        auto route = [&](rvsdg::Output * o, const std::function<rvsdg::Output *&(Env &)> & slot)
        {
          auto v = g->AddEntryVar(o);
          for (size_t k = 0; k < sub.size(); k++)
            slot(sub[k]) = v.branchArgument[k];
        };
        for (auto & kv : e.fns)
          route(kv.second, [&](Env & s) -> rvsdg::Output *& { return s.fns[kv.first]; });
        route(e.io, [](Env & s) -> rvsdg::Output *& { return s.io; });
        route(e.tok, [](Env & s) -> rvsdg::Output *& { return s.parent; });
        std::vector<rvsdg::Output *> ends;
        for (size_t k = 0; k < sub.size(); k++)
          ends.push_back(region(*g->subregion(k), sub[k]));
        e.live.push_back(g->AddExitVar(ends).output);
      }
      else if (auto t = dynamic_cast<rvsdg::ThetaNode *>(n))
      {
        Env s;
        for (auto & kv : e.fns)
          s.fns[kv.first] = t->AddLoopVar(kv.second).pre;
        s.io = t->AddLoopVar(e.io).pre;
        s.parent = t->AddLoopVar(e.tok).pre;
        auto state = t->AddLoopVar(e.mem);
        s.live.push_back(state.pre);
        state.post->divert_to(region(*t->subregion(), s));
        e.live.push_back(state.output);
      }
    }
    return jl::MemoryStateMergeOperation::Create(e.live);
  }
  void lambda(rvsdg::LambdaNode & l, const std::vector<std::pair<rvsdg::Output *, uint32_t>> * objects)
  {
    Env e;
    for (auto & kv : fns.imports)
      e.fns[kv.first] = &rvsdg::RouteToRegion(*kv.second, *l.subregion());
    e.io = &jl::LlvmLambdaOperation::getIOStateArgument(l);
    std::vector<std::pair<rvsdg::Output *, uint32_t>> inner;
    if (objects)
      for (auto [o, id] : *objects)
        inner.push_back({ &rvsdg::RouteToRegion(*o, *l.subregion()), id });
    auto & r = *l.subregion();
    e.live.push_back(region(r, e));
    if (objects)
    {
      e.mem = jl::UndefValueOperation::Create(r, jl::MemoryStateType::Create());
      for (auto [o, id] : inner)
      {
        auto p = o;
        if (auto ft = std::dynamic_pointer_cast<const rvsdg::FunctionType>(o->Type()))
          p = rvsdg::SimpleNode::Create(r, std::make_unique<jl::FunctionToPointerOperation>(ft), { o }).output(0);
        call(e, "vh_tap_obj", { constant(r, 64, 0), constant(r, 32, id), p });
      }
    }
    auto & result = *l.GetFunctionResults().back();
    e.live.push_back(result.origin());
    result.divert_to(jl::MemoryStateMergeOperation::Create(e.live));
  }
};
void eachLambda(rvsdg::Region & r, const std::function<void(rvsdg::LambdaNode &)> & f)
{
  std::vector<rvsdg::Node *> ns;
  for (auto & n : r.Nodes())
    ns.push_back(&n);
  for (auto n : ns)
  {
    if (auto l = dynamic_cast<rvsdg::LambdaNode *>(n))
      f(*l);
    else if (auto p = dynamic_cast<rvsdg::PhiNode *>(n))
      eachLambda(*p->subregion(), f);
  }
}
void eachRegion(rvsdg::Region & r, const std::function<void(rvsdg::Region &)> & f)
{
  f(r);
  for (auto & n : r.Nodes())
    if (auto s = dynamic_cast<rvsdg::StructuralNode *>(&n))
      for (auto & q : s->Subregions())
        eachRegion(q, f);
}
// an undefined value may look like anything, so that one is chosen for it
void defineUndefs(rvsdg::Region & r)
{
  std::vector<rvsdg::Node *> ns;
  for (auto & n : r.Nodes())
    if (jlm::rvsdg::is<jl::UndefValueOperation>(&n) || jlm::rvsdg::is<jl::PoisonValueOperation>(&n))
      ns.push_back(&n);
  for (auto n : ns)
  {
    auto t = n->output(0)->Type();
    if (auto b = std::dynamic_pointer_cast<const rvsdg::BitType>(t); b && b->nbits() <= 64)
      n->output(0)->divert_users(jl::IntegerConstantOperation::Create(r, b->nbits(), 0).output(0));
    else if (jlm::rvsdg::is<jl::PointerType>(t))
      n->output(0)->divert_users(jl::ConstantPointerNullOperation::createNode(r).output(0));
  }
}
bool isPtr(const rvsdg::Output & o) { return jlm::rvsdg::is<jl::PointerType>(o.Type()); }

// resolved contents of a points-to graph, comparable between graphs of the same module
std::map<std::string, std::string> canonical(const PointsToGraph & g, rvsdg::Graph & graph,
                                             const std::unordered_map<const void *, std::string> & names)
{
  std::map<std::string, std::string> out;
  auto objName = [&](PointsToGraph::NodeIndex i) -> std::string
  {
    switch (g.getNodeKind(i))
    {
    case PointsToGraph::NodeKind::AllocaNode: return names.at(&g.getAllocaForNode(i));
    case PointsToGraph::NodeKind::DeltaNode: return names.at(&g.getDeltaForNode(i));
    case PointsToGraph::NodeKind::ImportNode: return names.at(&g.getImportForNode(i));
    case PointsToGraph::NodeKind::LambdaNode: return names.at(&g.getLambdaForNode(i));
    case PointsToGraph::NodeKind::MallocNode: return names.at(&g.getMallocForNode(i));
    default: return "external";
    }
  };
  auto targets = [&](PointsToGraph::NodeIndex i)
  {
    std::set<std::string> s;
    for (auto t : g.getExplicitTargets(i).Items())
      s.insert(objName(t));
    if (g.isTargetingAllExternallyAvailable(i))
    {
      for (auto t : g.getExternallyAvailableNodes())
        s.insert(objName(t));
      s.insert("external");
    }
    std::string r;
    for (auto & x : s)
      r += x + " ";
    return r;
  };
  for (auto & [p, n] : names)
    (void)p;
  auto mem = [&](PointsToGraph::NodeIndex i) { out["memory " + objName(i)] = std::string(g.isExternallyAvailable(i) ? "[available] " : "") + targets(i); };
  for (auto i : g.allocaNodes()) mem(i);
  for (auto i : g.deltaNodes()) mem(i);
  for (auto i : g.importNodes()) mem(i);
  for (auto i : g.lambdaNodes()) mem(i);
  for (auto i : g.mallocNodes()) mem(i);
  mem(g.getExternalMemoryNode());
  eachLambda(graph.GetRootRegion(), [&](rvsdg::LambdaNode & l)
  {
    eachRegion(*l.subregion(), [&](rvsdg::Region & r)
    {
      auto one = [&](const rvsdg::Output & o)
      {
        if (isPtr(o) && g.hasNodeForRegister(o))
          out["value " + names.at(&o)] = targets(g.getNodeForRegister(o));
      };
      for (auto a : r.Arguments())
        one(*a);
      for (auto & n : r.Nodes())
        for (auto & o : n.Outputs())
          one(o);
    });
  });
  return out;
}
std::string configIndependence(jl::LlvmRvsdgModule & rm, uint64_t seed, const PointsToGraph & ref)
{
  auto & graph = rm.Rvsdg();
  std::unordered_map<const void *, std::string> names;
  size_t k = 0;
  eachRegion(graph.GetRootRegion(), [&](rvsdg::Region & r)
  {
    for (auto a : r.Arguments())
      names[a] = "a" + std::to_string(k++);
    for (auto & n : r.Nodes())
    {
      names[&n] = "n" + std::to_string(k++) + "<" + n.DebugString() + ">";
      for (auto & o : n.Outputs())
        names[&o] = "o" + std::to_string(k++) + "<" + n.DebugString() + ">";
    }
  });
  auto want = canonical(ref, graph, names);
  auto all = jl::aa::Andersen::Configuration::GetAllConfigurations();
  Rng r(seed);
  size_t n = std::min<size_t>(all.size(), 8);
  for (size_t i = 0; i < n; i++)
  {
    auto & c = i == 0 ? all[0] : all[r.below(all.size())];
    jl::aa::Andersen a;
    a.SetConfiguration(c);
    snprintf(shm0->stage, sizeof(shm0->stage), "Andersen %s", c.ToString().c_str());
    auto got = canonical(*a.Analyze(rm), graph, names);
    childStat("configurations", 1);
    childStat("config.facts", got.size());
    if (got == want)
      continue;
    for (auto & [key, v] : want)
      if (!got.count(key) || got.at(key) != v)
        return "configuration " + c.ToString() + ": " + key + " is {" + (got.count(key) ? got.at(key) : "missing") + "}, the default configuration says {" + v + "}";
    return "configuration " + c.ToString() + " has more facts than the default configuration";
  }
  return "";
}

std::unique_ptr<PointsToGraph> ptg;
std::unordered_map<int, int> memIndex; // points-to graph index -> our index
int memOf(PointsToGraph::NodeIndex i, const std::string & name)
{
  auto it = memIndex.find(i);
  if (it != memIndex.end())
    return it->second;
  memExternal.push_back(ptg->isExternallyAvailable(i));
  memNames.push_back(name);
  return memIndex[i] = memNames.size() - 1;
}

bool hasExtension(const rvsdg::Region & r)
{
  for (auto & n : const_cast<rvsdg::Region &>(r).Nodes())
  {
    if (jlm::rvsdg::is<jl::SExtOperation>(&n) || jlm::rvsdg::is<jl::ZExtOperation>(&n) || jlm::rvsdg::is<jl::TruncOperation>(&n))
      return true;
    if (auto s = dynamic_cast<rvsdg::StructuralNode *>(&n))
      for (auto & q : s->Subregions())
        if (hasExtension(q))
          return true;
  }
  return false;
}
void tapValue(const rvsdg::Output & o)
{
  unsigned w = 0;
  if (auto b = std::dynamic_pointer_cast<const rvsdg::BitType>(o.Type()))
  {
    w = b->nbits();
    if (w != 1 && w != 8 && w != 16 && w != 32 && w != 64)
      w = 0;
  }
  if (valIds.emplace(&o, valTaps.size()).second)
    valTaps.push_back({ &o, w });
}
void initsOf(const jl::SCEV & s, const std::function<void(const rvsdg::Output &)> & f)
{
  if (auto i = dynamic_cast<const jl::SCEVInit *>(&s))
    f(i->GetPrePointer());
  else if (auto b = dynamic_cast<const jl::SCEVBinaryExpr *>(&s))
  {
    initsOf(*b->GetLeftOperand(), f);
    initsOf(*b->GetRightOperand(), f);
  }
  else if (auto n = dynamic_cast<const jl::SCEVNAryExpr *>(&s))
    for (auto o : n->GetOperands())
      initsOf(*o, f);
}

std::string prepare(jl::LlvmRvsdgModule & rm, uint64_t seed)
{
  auto & graph = rm.Rvsdg();
  arena = (char *)mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  util::StatisticsCollector sc;
  if (tapMode == "pta" || tapMode == "alias")
  {
    jl::aa::Andersen andersen;
    ptg = andersen.Analyze(rm, sc);
    if (tapMode == "pta")
    {
      auto e = configIndependence(rm, seed, *ptg);
      if (!e.empty())
        return e;
    }
  }
  Instrument ins(graph);
  std::vector<std::pair<rvsdg::Output *, uint32_t>> objects;
  rvsdg::LambdaNode * entry = nullptr;
  std::vector<rvsdg::LambdaNode *> lambdas;
  eachLambda(graph.GetRootRegion(), [&](rvsdg::LambdaNode & l)
  {
    lambdas.push_back(&l);
    auto & n = dynamic_cast<const jl::LlvmLambdaOperation &>(l.GetOperation()).name();
    if (n == "vh_main" || n == "main")
      entry = &l;
  });
  if (!entry)
    return "";
  if (tapMode == "pta")
  {
    // objects that exist once
    for (auto l : lambdas)
      if (ptg->hasNodeForLambda(*l) && l != entry && l->region() == &graph.GetRootRegion())
      {
        allocInfo.push_back({ 1, 1, memOf(ptg->getNodeForLambda(*l), "function " + l->DebugString()) });
        objects.push_back({ l->output(), allocInfo.size() - 1 });
      }
    for (auto & n : graph.GetRootRegion().Nodes())
    {
      if (auto d = dynamic_cast<rvsdg::DeltaNode *>(&n); d && ptg->hasNodeForDelta(*d))
      {
        allocInfo.push_back({ jl::GetTypeAllocSize(*d->Type()), 1, memOf(ptg->getNodeForDelta(*d), "global " + d->DebugString()) });
        objects.push_back({ &d->output(), allocInfo.size() - 1 });
      }
      if (auto p = dynamic_cast<rvsdg::PhiNode *>(&n); p && entry->region() == &graph.GetRootRegion())
        for (auto & v : p->GetFixVars())
        {
          if (auto l = rvsdg::TryGetOwnerNode<rvsdg::LambdaNode>(*v.result->origin()); l && ptg->hasNodeForLambda(*l))
          {
            allocInfo.push_back({ 1, 1, memOf(ptg->getNodeForLambda(*l), "function " + l->DebugString()) });
            objects.push_back({ v.output, allocInfo.size() - 1 });
          }
          else if (auto d = rvsdg::TryGetOwnerNode<rvsdg::DeltaNode>(*v.result->origin()); d && ptg->hasNodeForDelta(*d))
          {
            allocInfo.push_back({ jl::GetTypeAllocSize(*d->Type()), 1, memOf(ptg->getNodeForDelta(*d), "global " + d->DebugString()) });
            objects.push_back({ v.output, allocInfo.size() - 1 });
          }
        }
    }
    for (auto a : graph.GetRootRegion().Arguments())
      if (auto i = dynamic_cast<jl::LlvmGraphImport *>(a); i && ptg->hasNodeForImport(*i) && i->Name().rfind("vh_tap", 0) && i->Name().rfind("llvm.", 0) && i->Name() != "vh_region")
      {
        uint64_t size = jlm::rvsdg::is<rvsdg::FunctionType>(i->ValueType()) ? 1 : jl::GetTypeAllocSize(*i->ValueType());
        allocInfo.push_back({ size, 1, memOf(ptg->getNodeForImport(*i), "import " + i->Name()) });
        objects.push_back({ i, allocInfo.size() - 1 });
      }
  }
  std::unordered_map<std::string, int> widths;
  for (auto l : lambdas)
  {
    std::vector<rvsdg::Region *> regions;
    eachRegion(*l->subregion(), [&](rvsdg::Region & r) { regions.push_back(&r); });
    std::vector<std::pair<rvsdg::Node *, rvsdg::Region *>> accesses;
    for (auto r : regions)
    {
      auto tap = [&](rvsdg::Output & o)
      {
        if (auto n = rvsdg::TryGetOwnerNode<rvsdg::Node>(o); n && (jlm::rvsdg::is<jl::UndefValueOperation>(n) || jlm::rvsdg::is<jl::PoisonValueOperation>(n)))
          return;
        if (tapMode != "pta" || !isPtr(o))
          return;
        // computed pointers may leave their object as long as they are not used
        if (auto [n, op] = rvsdg::TryGetSimpleNodeAndOptionalOp<rvsdg::SimpleOperation>(o); op && (jlm::rvsdg::is<jl::GetElementPtrOperation>(*op) || jlm::rvsdg::is<jl::IntToPtrOperation>(*op)))
        {
          bool used = false;
          for (auto & u : o.Users())
            if (auto [un, uop] = rvsdg::TryGetSimpleNodeAndOptionalOp<rvsdg::SimpleOperation>(u); uop && u.index() == 0)
              used = used || jlm::rvsdg::is<jl::LoadOperation>(*uop) || jlm::rvsdg::is<jl::StoreOperation>(*uop);
          if (!used)
            return;
        }
        Target t;
        t.name = outName(o);
        if (ptg->hasNodeForRegister(o))
        {
          auto i = ptg->getNodeForRegister(o);
          t.known = true;
          t.allExternal = ptg->isTargetingAllExternallyAvailable(i);
          for (auto k : ptg->getExplicitTargets(i).Items())
            t.mems.insert(memOf(k, "object " + std::to_string(k)));
        }
        ins.ptrIds[&o] = ptrTaps.size();
        ptrTaps.push_back(std::move(t));
      };
      for (auto a : r->Arguments())
        tap(*a);
      for (auto & n : r->Nodes())
      {
        for (auto & o : n.Outputs())
          tap(o);
        bool alloca = jlm::rvsdg::is<jl::AllocaOperation>(&n), mal = jlm::rvsdg::is<jl::MallocOperation>(&n);
        if (alloca || mal)
        {
          auto w = std::static_pointer_cast<const rvsdg::BitType>(n.input(0)->Type())->nbits();
          if (w != 32 && w != 64)
            return "";
          AllocInfo ai{ 1, 16, -1 };
          if (alloca)
          {
            auto & op = dynamic_cast<const jl::AllocaOperation &>(n.GetOperation());
            ai.elem = jl::GetTypeAllocSize(*op.allocatedType());
            ai.align = op.alignment();
            if (tapMode == "pta")
              ai.mem = memOf(ptg->getNodeForAlloca(dynamic_cast<rvsdg::SimpleNode &>(n)), "alloca in " + regionPath(*r));
          }
          else if (tapMode == "pta")
            ai.mem = memOf(ptg->getNodeForMalloc(dynamic_cast<rvsdg::SimpleNode &>(n)), "malloc in " + regionPath(*r));
          ins.allocIds[&n] = allocInfo.size();
          allocInfo.push_back(ai);
        }
        if (tapMode == "alias")
        {
          auto s = dynamic_cast<rvsdg::SimpleNode *>(&n);
          std::shared_ptr<const rvsdg::Type> t;
          if (s && jlm::rvsdg::is<jl::LoadOperation>(s))
            t = jl::LoadOperation::LoadedValueOutput(*s).Type();
          else if (s && jlm::rvsdg::is<jl::StoreOperation>(s))
            t = jl::StoreOperation::StoredValueInput(*s).Type();
          else
            continue;
          ins.accIds[s] = accs.size();
          accs.push_back({ s->input(0)->origin(), jl::GetTypeStoreSize(*t), r, s->DebugString() + " in " + regionPath(*r) });
          accesses.push_back({ s, r });
        }
      }
    }
    if (tapMode == "alias")
    {
      jl::aa::LocalAliasAnalysis local;
      auto shared = std::shared_ptr<const PointsToGraph>(ptg.get(), [](auto) {});
      jl::aa::PointsToGraphAliasAnalysis pa(shared);
      jl::aa::ChainedAliasAnalysis chain(std::make_shared<jl::aa::PointsToGraphAliasAnalysis>(shared), std::make_shared<jl::aa::LocalAliasAnalysis>());
      jl::aa::LocalAliasAnalysis small;
      small.setMaxTraceCollectionSize(2);
      jl::aa::AliasAnalysis * as[] = { &local, &pa, &chain, &small };
      Rng r(seed);
      size_t n = accesses.size();
      std::vector<std::pair<size_t, size_t>> pairs;
      auto inside = [](const rvsdg::Region * in, const rvsdg::Region * out)
      {
        for (auto q = in; q; q = q->node() ? q->node()->region() : nullptr)
        {
          if (q == out)
            return true;
          if (q->node() && dynamic_cast<const rvsdg::LambdaNode *>(q->node()))
            return false;
        }
        return false;
      };
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
          if (i != j && inside(accesses[j].second, accesses[i].second) && (accesses[i].second != accesses[j].second || i < j))
            pairs.push_back({ i, j });
      while (pairs.size() > 1500)
      {
        std::swap(pairs[r.below(pairs.size())], pairs.back());
        pairs.pop_back();
      }
      for (auto [i, j] : pairs)
      {
        auto a = ins.accIds.at(accesses[i].first), b = ins.accIds.at(accesses[j].first);
        for (int k = 0; k < 4; k++)
        {
          bool swap = r.chance(30);
          auto & x = accs[swap ? b : a];
          auto & y = accs[swap ? a : b];
          static FILE * dbg = getenv("VH_TAP_DEBUG") ? fopen(getenv("VH_TAP_DEBUG"), "w") : nullptr;
          if (dbg)
            setbuf(dbg, nullptr);
          if (dbg && k == 2)
            fprintf(dbg, "%s | %s | local %d ptg %d\n", x.name.c_str(), y.name.c_str(), local.Query(*x.ptr, x.size, *y.ptr, y.size), pa.Query(*x.ptr, x.size, *y.ptr, y.size));
          auto q = as[k]->Query(*x.ptr, x.size, *y.ptr, y.size);
          childStat("queries", 1);
          if (as[k]->Query(*y.ptr, y.size, *x.ptr, x.size) != q)
            return std::string(as[k]->ToString()) + " gives another answer when its operands are exchanged: " + x.name + " and " + y.name;
          if (q == jl::aa::AliasAnalysis::MayAlias)
            continue;
          childStat(q == jl::aa::AliasAnalysis::NoAlias ? "noalias" : "mustalias", 1);
          claims.push_back({ a, b, k, q == jl::aa::AliasAnalysis::MustAlias });
        }
      }
    }
  }
  if (tapMode == "scev")
  {
    jl::ScalarEvolution se;
    se.Run(rm, sc);
    auto map = se.GetChrecMap();
    for (auto & [o, c] : map)
    {
      if (c->GetOperands().empty() || jl::ScalarEvolution::IsUnknown(*c) || c->GetLoop().subregion() != o->region())
        continue;
      if (!getenv("VH_NO_MASK") && !noMask0 && hasExtension(*c->GetLoop().subregion()))
      {
        childStat("masked", 1);
        continue;
      }
      tapValue(*o);
      initsOf(*c, [](const rvsdg::Output & i) { tapValue(i); });
      chrecs[o] = jl::SCEV::CloneAs<jl::SCEVChainRecurrence>(*c);
      childStat("recurrences", 1);
      childStat("recurrences.order" + std::to_string(c->GetOperands().size() - 1), 1);
    }
  }
  for (auto l : lambdas)
    eachRegion(*l->subregion(), [&](rvsdg::Region & r) { defineUndefs(r); });
  for (auto l : lambdas)
    ins.lambda(*l, l == entry ? &objects : nullptr);
  if (getenv("VH_TAP_VIEW"))
    std::ofstream(getenv("VH_TAP_VIEW")) << rvsdg::view(&graph.GetRootRegion());
  return "";
}

// ---------------------------------------------------------------- the oracle
std::string judgePta()
{
  uint64_t judged = 0, inObj = 0;
  std::set<uint32_t> distinct;
  for (auto & r : recs)
  {
    auto it = objs.upper_bound(r.v);
    if (it == objs.begin())
      continue;
    --it;
    auto & o = it->second;
    auto & t = ptrTaps[r.id];
    judged++;
    if (r.v > o.base + o.size || (o.size == 0 && r.v != o.base))
      continue;
    // the first byte behind an object may be another object that is adjacent (globals)
    if (r.v == o.base + o.size)
      continue;
    // ... and the end of the object before may be the beginning of this one
    if (r.v == o.base && it != objs.begin())
      if (auto & b = std::prev(it)->second; b.base + b.size == r.v && (t.mems.count(b.mem) || (t.allExternal && memExternal[b.mem])))
        continue;
    inObj++;
    distinct.insert(r.id);
    if (!t.known)
      return "the points-to graph has no node for " + t.name + ", which holds a pointer";
    if (!t.mems.count(o.mem) && !(t.allExternal && memExternal[o.mem]))
      return t.name + " points into " + memNames[o.mem] + ", which is not in its points-to set";
  }
  childStat("pointers.observed", recs.size());
  childStat("pointers.into.objects", inObj);
  childStat("pointers.distinct", distinct.size());
  childStat("objects", objs.size());
  return "";
}
std::string judgeAlias()
{
  std::vector<std::vector<std::pair<uint64_t, uint64_t>>> by(accs.size()); // token, address
  for (auto & r : recs)
    by[r.id].push_back({ r.tok, r.v });
  std::vector<std::unordered_map<uint64_t, uint64_t>> at(accs.size());
  for (size_t i = 0; i < by.size(); i++)
    for (auto & [t, v] : by[i])
      at[i][t] = v;
  static const char * names[] = { "LocalAliasAnalysis", "PointsToGraphAliasAnalysis", "ChainedAliasAnalysis", "LocalAliasAnalysis(2)" };
  uint64_t checked = 0, claimsSeen = 0;
  for (auto & c : claims)
  {
    auto target = regionIds.at(accs[c.a].region);
    bool seen = false;
    for (auto & [tok, v] : by[c.b])
    {
      auto t = tok;
      while (t && toks[t - 1].region != target)
        t = toks[t - 1].parent;
      if (!t)
        continue;
      auto it = at[c.a].find(t);
      if (it == at[c.a].end())
        continue;
      checked++;
      seen = true;
      auto p = it->second, q = v;
      bool bad = c.must ? p != q : (p < q + accs[c.b].size && q < p + accs[c.a].size);
      if (bad)
        return std::string(names[c.aa]) + " says " + (c.must ? "MustAlias" : "NoAlias") + " for " + accs[c.a].name + " (" + std::to_string(accs[c.a].size) +
               " bytes) and " + accs[c.b].name + " (" + std::to_string(accs[c.b].size) + " bytes), whose addresses differ by " + std::to_string((int64_t)(q - p));
    }
    claimsSeen += seen;
  }
  childStat("claims.checked", claimsSeen);
  childStat("claims.executions", checked);
  return "";
}
struct Eval
{
  // value of tapped outputs by region execution
  std::vector<std::unordered_map<uint64_t, uint64_t>> at;
  std::unordered_map<uint64_t, uint64_t> iter;      // token of a loop iteration -> its number
  std::unordered_map<uint64_t, uint64_t> firstTok;  // ... -> token of the first iteration
  bool ok = true;
  uint64_t find(uint64_t tok, const rvsdg::Region * r)
  {
    auto id = regionIds.find(r);
    if (id == regionIds.end())
      return 0;
    while (tok && toks[tok - 1].region != id->second)
      tok = toks[tok - 1].parent;
    return tok;
  }
  uint64_t eval(const jl::SCEV & s, uint64_t tok)
  {
    if (auto c = dynamic_cast<const jl::SCEVConstant *>(&s))
      return c->GetValue();
    if (auto i = dynamic_cast<const jl::SCEVInit *>(&s))
    { // the value before the first iteration
      auto & pre = i->GetPrePointer();
      auto t = find(tok, pre.region());
      auto id = valIds.find(&pre);
      if (!t || id == valIds.end() || valTaps[id->second].second == 0)
        return ok = false, 0;
      auto v = at[id->second].find(firstTok.count(t) ? firstTok[t] : t);
      if (v == at[id->second].end())
        return ok = false, 0;
      // as a signed number: recurrences are over the type's width anyway
      return v->second;
    }
    if (auto c = dynamic_cast<const jl::SCEVChainRecurrence *>(&s))
    {
      auto t = find(tok, c->GetLoop().subregion());
      if (!t)
        return ok = false, 0;
      uint64_t n = iter[t], r = 0;
      // binomial coefficients modulo 2^64
      for (size_t k = 0; k < c->GetOperands().size(); k++)
      {
        unsigned __int128 b = 1;
        for (size_t q = 0; q < k; q++)
          b = b * (n - q) / (q + 1);
        if (n < k)
          b = 0;
        r += (uint64_t)b * eval(*c->GetOperands()[k], tok);
      }
      return r;
    }
    if (auto b = dynamic_cast<const jl::SCEVBinaryExpr *>(&s))
    {
      auto x = eval(*b->GetLeftOperand(), tok), y = eval(*b->GetRightOperand(), tok);
      return dynamic_cast<const jl::SCEVMulExpr *>(&s) ? x * y : x + y;
    }
    if (auto n = dynamic_cast<const jl::SCEVNAryExpr *>(&s))
    {
      bool mul = dynamic_cast<const jl::SCEVNAryMulExpr *>(&s);
      uint64_t r = mul;
      for (auto o : n->GetOperands())
        r = mul ? r * eval(*o, tok) : r + eval(*o, tok);
      return r;
    }
    return ok = false, 0;
  }
};
std::string judgeScev()
{
  Eval e;
  e.at.resize(valTaps.size());
  for (auto & r : recs)
    e.at[r.id][r.tok] = r.v;
  std::map<std::pair<uint64_t, uint32_t>, std::pair<uint64_t, uint64_t>> count; // (parent, region) -> (iterations, first)
  for (size_t i = 0; i < toks.size(); i++)
  {
    auto & c = count[{ toks[i].parent, toks[i].region }];
    if (c.first == 0)
      c.second = i + 1;
    e.iter[i + 1] = c.first++;
    e.firstTok[i + 1] = c.second;
  }
  uint64_t checked = 0, later = 0, pred = 0;
  for (auto & [o, c] : chrecs)
  {
    auto id = valIds.at(o);
    auto w = valTaps[id].second;
    if (w == 0)
      continue;
    for (auto & [tok, v] : e.at[id])
    {
      e.ok = true;
      auto x = e.eval(*c, tok);
      if (!e.ok)
        continue;
      pred++;
      if (w < 64)
        x &= (1ull << w) - 1;
      checked++;
      later += e.iter[tok] > 1;
      if (x != v)
        return outName(*o) + " is " + std::to_string(v) + " in iteration " + std::to_string(e.iter[tok]) + ", the recurrence " + c->DebugString() + " gives " + std::to_string(x);
    }
  }
  childStat("values.checked", checked);
  childStat("values.third.iteration.or.later", later);
  return "";
}
}
bool isTapMode(const std::string & m) { return m == "pta" || m == "alias" || m == "scev" || m == "order"; }
static Rng orderRng(1);
void tapHooks(const std::string & mode, uint64_t seed, bool noMask, TransformHooks & h)
{
  tapMode = mode;
  noMask0 = noMask;
  if (mode == "order")
  {
    h.beforeBackend = [seed](jl::LlvmRvsdgModule &) -> std::string
    {
      orderRng = Rng(seed);
      if (seed % 5)
        jlm::rvsdg::detail::verifPickNode = [](size_t n) -> size_t { return orderRng.below(n); };
      else
        jlm::rvsdg::detail::verifPickNode = [](size_t n) -> size_t { return n - 1; }; // as late as possible
      return "";
    };
    h.afterBackend = [] { jlm::rvsdg::detail::verifPickNode = nullptr; };
    return;
  }
  h.beforeBackend = [seed](jl::LlvmRvsdgModule & m) -> std::string
  {
    shm0 = stageShm();
    return prepare(m, seed);
  };
  h.atFinish = []() -> std::string
  {
    childStat("regions.executed", toks.size());
    childStat("overflows", overflow);
    return tapMode == "pta" ? judgePta() : tapMode == "alias" ? judgeAlias() : judgeScev();
  };
  h.keepGraph = true;
}
}
