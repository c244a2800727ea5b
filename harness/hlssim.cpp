// Simulates the elastic circuit that the high-level synthesis passes build: every edge is a valid/ready/data channel and
// every node behaves as the FIRRTL backend describes it.
#include "hlssim.hpp"
#include <jlm/hls/ir/hls.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/LambdaMemoryState.hpp>
#include <jlm/llvm/ir/types.hpp>
#include <jlm/rvsdg/bitstring/type.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/traverser.hpp>
namespace vh
{
using namespace jlm;
namespace L = jlm::llvm;
namespace
{
struct Chan
{
  bool v = false, r = false;
  uint64_t d = 0;
  // memory requests and responses
  uint64_t addr = 0;
  uint32_t size = 0, id = 0;
  bool write = false;
  int src = -1, dst = -1;
  std::string what;
  bool fire() const { return v && r; }
};
enum K
{
  KSimple, KFork, KCFork, KGate, KDMux, KMux, KBranch, KPredBuf, KLoopConst, KBuffer, KAddrQueue, KLoad, KDecLoad, KStore, KMemReq,
  KMemResp, KLocalMem, KLocalLoad, KLocalStore, KSink, KTrigger
};
struct Comp
{
  K k = KSimple;
  std::string name;
  const rvsdg::SimpleNode * node = nullptr;
  std::vector<int> in, out;
  // state
  std::vector<char> fired;
  std::vector<uint64_t> reg;
  std::deque<uint64_t> q;
  uint64_t data = 0;
  bool flag = false;
  size_t cap = 0;
  bool pass = false;
  size_t outstanding = 0;
  std::function<uint64_t(const uint64_t *)> fn;
  // memories
  std::vector<uint64_t> mem;
  size_t nloads = 0;
  std::vector<int> widths;
  int pending = -1;
};
uint64_t mask(int b) { return b >= 64 ? ~0ull : (1ull << b) - 1; }
int64_t sx(uint64_t v, int b) { return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b); }
int width(const rvsdg::Type & t)
{
  if (auto b = dynamic_cast<const rvsdg::BitType *>(&t))
    return b->nbits();
  if (dynamic_cast<const L::PointerType *>(&t))
    return 64;
  if (dynamic_cast<const rvsdg::ControlType *>(&t))
    return 32;
  return 1;
}
}

struct HlsSim::Impl
{
  Rng & r;
  std::vector<Comp> comps;
  std::vector<Chan> chans;
  std::unordered_map<const rvsdg::Output *, int> chanOf;
  struct Arg { int chan; const rvsdg::RegionArgument * a; std::string global; bool pending = false; uint64_t value = 0; };
  std::vector<Arg> args;
  struct Res { int chan; const rvsdg::RegionResult * res; bool got = false; uint64_t value = 0; };
  std::vector<Res> results;
  struct Resp { uint32_t id; uint64_t data; uint64_t due; };
  struct Port { int req, resp; std::deque<Resp> q; bool stall = false; };
  std::vector<Port> ports;
  std::string err, unsupported;
  const rvsdg::LambdaNode * lambda = nullptr;
  std::vector<char> queued;
  std::vector<int> work;
  uint64_t evals = 0;
  explicit Impl(Rng & r) : r(r) {}

  bool slack = false, around = false;
  const rvsdg::Output * source(const rvsdg::Output * o)
  {
    around = false;
    for (int i = 0; i < 10000; i++)
    {
      if (auto a = dynamic_cast<const rvsdg::RegionArgument *>(o))
      {
        if (auto b = dynamic_cast<const hls::BackEdgeArgument *>(o))
        {
          o = const_cast<hls::BackEdgeArgument *>(b)->result()->origin();
          around = true;
          continue;
        }
        if (dynamic_cast<const hls::LoopNode *>(a->region()->node()))
        {
          if (!a->input())
          {
            err = "loop argument without an input";
            return o;
          }
          o = a->input()->origin();
          continue;
        }
        return o;
      }
      if (auto so = dynamic_cast<const rvsdg::StructuralOutput *>(o))
      {
        if (so->results.size() != 1)
        {
          err = "loop output with " + std::to_string(so->results.size()) + " results";
          return o;
        }
        o = so->results.begin()->origin();
        continue;
      }
      return o;
    }
    err = "an edge only goes around";
    return o;
  }
  int chan(const rvsdg::Output * o)
  {
    o = source(o);
    auto it = chanOf.find(o);
    if (it != chanOf.end())
      return it->second;
    int c = chans.size();
    chans.emplace_back();
    chans.back().what = o->debug_string();
    chanOf[o] = c;
    return c;
  }
  int consume(const rvsdg::Output * o, int dst)
  {
    int c = chan(o);
    if (chans[c].dst != -1 && err.empty())
      err = "two consumers of one token stream (" + chans[c].what + ")";
    chans[c].dst = dst;
    return c;
  }

  void simpleFn(Comp & c)
  {
    auto & op = c.node->GetOperation();
    int ow = c.node->noutputs() ? width(*c.node->output(0)->Type()) : 0;
    int iw = c.node->ninputs() ? width(*c.node->input(0)->Type()) : 0;
    uint64_t om = mask(ow);
#define BIN(T, E) if (dynamic_cast<const L::T *>(&op)) { c.fn = [iw, om](const uint64_t * x) -> uint64_t { uint64_t a = x[0], b = x[1]; (void)iw; return (E) & om; }; return; }
    BIN(IntegerAddOperation, a + b) BIN(IntegerSubOperation, a - b) BIN(IntegerMulOperation, a * b) BIN(IntegerAndOperation, a & b)
    BIN(IntegerOrOperation, a | b) BIN(IntegerXorOperation, a ^ b) BIN(IntegerShlOperation, b < 64 ? a << b : 0)
    BIN(IntegerLShrOperation, b < 64 ? a >> b : 0) BIN(IntegerAShrOperation, (uint64_t)(sx(a, iw) >> (b < 63 ? b : 63)))
    BIN(IntegerSDivOperation, sx(b, iw) == 0 ? 0 : sx(b, iw) == -1 ? -a : (uint64_t)(sx(a, iw) / sx(b, iw)))
    BIN(IntegerSRemOperation, sx(b, iw) == 0 ? 0 : sx(b, iw) == -1 ? 0 : (uint64_t)(sx(a, iw) % sx(b, iw)))
    BIN(IntegerUDivOperation, b ? a / b : 0) BIN(IntegerURemOperation, b ? a % b : 0)
    BIN(IntegerEqOperation, a == b) BIN(IntegerNeOperation, a != b) BIN(IntegerUltOperation, a < b) BIN(IntegerUleOperation, a <= b)
    BIN(IntegerUgtOperation, a > b) BIN(IntegerUgeOperation, a >= b) BIN(IntegerSltOperation, sx(a, iw) < sx(b, iw))
    BIN(IntegerSleOperation, sx(a, iw) <= sx(b, iw)) BIN(IntegerSgtOperation, sx(a, iw) > sx(b, iw)) BIN(IntegerSgeOperation, sx(a, iw) >= sx(b, iw))
#undef BIN
    if (dynamic_cast<const L::ZExtOperation *>(&op) || dynamic_cast<const L::TruncOperation *>(&op) || dynamic_cast<const L::BitCastOperation *>(&op)
        || dynamic_cast<const L::IntToPtrOperation *>(&op) || dynamic_cast<const L::PtrToIntOperation *>(&op) || dynamic_cast<const L::FreezeOperation *>(&op)
        || dynamic_cast<const L::ControlToIntOperation *>(&op))
    {
      c.fn = [om](const uint64_t * x) { return x[0] & om; };
      return;
    }
    if (dynamic_cast<const L::SExtOperation *>(&op))
    {
      c.fn = [iw, om](const uint64_t * x) { return (uint64_t)sx(x[0], iw) & om; };
      return;
    }
    if (dynamic_cast<const L::MemoryStateMergeOperation *>(&op) || dynamic_cast<const L::LambdaExitMemoryStateMergeOperation *>(&op)
        || dynamic_cast<const L::MemoryStateJoinOperation *>(&op))
    {
      c.fn = [](const uint64_t *) { return 0; };
      return;
    }
    if (auto k = dynamic_cast<const L::IntegerConstantOperation *>(&op))
    {
      uint64_t v = 0;
      auto & rep = k->Representation();
      if (rep.nbits() > 64)
      {
        unsupported = "wide constant";
        return;
      }
      for (size_t i = 0; i < rep.nbits(); i++)
        v |= (uint64_t)(rep[i] == '1') << i;
      c.fn = [v](const uint64_t *) { return v; };
      return;
    }
    if (auto k = dynamic_cast<const rvsdg::ControlConstantOperation *>(&op))
    {
      uint64_t v = k->value().alternative();
      c.fn = [v](const uint64_t *) { return v; };
      return;
    }
    if (dynamic_cast<const L::ConstantPointerNullOperation *>(&op))
    {
      c.fn = [](const uint64_t *) { return 0; };
      return;
    }
    if (dynamic_cast<const L::UndefValueOperation *>(&op) || dynamic_cast<const L::PoisonValueOperation *>(&op))
    {
      uint64_t v = r.next() & om;
      c.fn = [v](const uint64_t *) { return v; };
      return;
    }
    if (auto m = dynamic_cast<const rvsdg::MatchOperation *>(&op))
    {
      std::map<uint64_t, uint64_t> t;
      for (auto it = m->begin(); it != m->end(); ++it)
        t[it->first] = it->second;
      uint64_t d = m->default_alternative();
      c.fn = [t, d](const uint64_t * x) { auto it = t.find(x[0]); return it == t.end() ? d : it->second; };
      return;
    }
    if (dynamic_cast<const L::SelectOperation *>(&op))
    {
      c.fn = [](const uint64_t * x) { return x[0] ? x[1] : x[2]; };
      return;
    }
    if (auto pc = dynamic_cast<const L::PtrCmpOperation *>(&op))
    {
      auto kind = pc->predicate();
      c.fn = [kind](const uint64_t * x) -> uint64_t
      {
        switch (kind)
        {
        case L::ICmpPredicate::Eq: return x[0] == x[1];
        case L::ICmpPredicate::Ne: return x[0] != x[1];
        case L::ICmpPredicate::Ugt: return x[0] > x[1];
        case L::ICmpPredicate::Uge: return x[0] >= x[1];
        case L::ICmpPredicate::Ult: return x[0] < x[1];
        case L::ICmpPredicate::Sgt: return (int64_t)x[0] > (int64_t)x[1];
        case L::ICmpPredicate::Sge: return (int64_t)x[0] >= (int64_t)x[1];
        case L::ICmpPredicate::Slt: return (int64_t)x[0] < (int64_t)x[1];
        case L::ICmpPredicate::Sle: return (int64_t)x[0] <= (int64_t)x[1];
        default: return x[0] <= x[1];
        }
      };
      return;
    }
    if (auto g = dynamic_cast<const L::GetElementPtrOperation *>(&op))
    {
      std::vector<std::pair<uint64_t, int>> steps; // scale, width of the index
      const rvsdg::Type * t = g->getPointeeType().get();
      for (size_t i = 1; i < c.node->ninputs(); i++)
      {
        if (!t)
        {
          unsupported = "gep";
          return;
        }
        steps.emplace_back(hls::JlmSize(t) / 8, width(*c.node->input(i)->Type()));
        if (auto a = dynamic_cast<const L::ArrayType *>(t))
          t = &a->element_type();
        else
          t = nullptr;
      }
      c.fn = [steps](const uint64_t * x)
      {
        uint64_t a = x[0];
        for (size_t i = 0; i < steps.size(); i++)
          a += (uint64_t)sx(x[i + 1], steps[i].second) * steps[i].first;
        return a;
      };
      return;
    }
    if (unsupported.empty())
      unsupported = op.debug_string();
  }

  void addNode(const rvsdg::SimpleNode & n, std::map<std::string, uint64_t> & census)
  {
    auto & op = n.GetOperation();
    if (dynamic_cast<const hls::LocalMemoryOperation *>(&op) || dynamic_cast<const hls::LocalMemoryResponseOperation *>(&op))
      return; // part of the request node
    int ix = comps.size();
    comps.emplace_back();
    Comp & c = comps.back();
    c.node = &n;
    c.name = op.debug_string();
    auto nm = c.name.substr(0, c.name.find_first_of("0123456789[( "));
    if (dynamic_cast<const hls::ForkOperation *>(&op) && static_cast<const hls::ForkOperation &>(op).IsConstant()) c.k = KCFork;
    else if (dynamic_cast<const hls::ForkOperation *>(&op)) c.k = KFork;
    else if (dynamic_cast<const hls::StateGateOperation *>(&op)) c.k = KGate;
    else if (auto m = dynamic_cast<const hls::MuxOperation *>(&op)) c.k = m->discarding ? KDMux : KMux;
    else if (dynamic_cast<const hls::BranchOperation *>(&op)) c.k = KBranch;
    else if (dynamic_cast<const hls::PredicateBufferOperation *>(&op)) c.k = KPredBuf;
    else if (dynamic_cast<const hls::LoopConstantBufferOperation *>(&op)) c.k = KLoopConst;
    else if (auto b = dynamic_cast<const hls::BufferOperation *>(&op)) { c.k = KBuffer; c.cap = b->Capacity(); c.pass = b->IsPassThrough(); if (!c.cap) err = "buffer without capacity"; }
    else if (auto a = dynamic_cast<const hls::AddressQueueOperation *>(&op)) { c.k = KAddrQueue; c.cap = a->capacity; c.pass = a->combinatorial; }
    else if (dynamic_cast<const hls::LoadOperation *>(&op)) c.k = KLoad;
    else if (auto d = dynamic_cast<const hls::DecoupledLoadOperation *>(&op)) { c.k = KDecLoad; c.cap = d->capacity; }
    else if (dynamic_cast<const hls::StoreOperation *>(&op)) c.k = KStore;
    else if (auto q = dynamic_cast<const hls::MemoryRequestOperation *>(&op))
    {
      c.k = KMemReq;
      c.nloads = q->get_nloads();
      for (auto & t : *q->GetLoadTypes()) c.widths.push_back(width(*t));
      for (auto & t : *q->GetStoreTypes()) c.widths.push_back(width(*t));
    }
    else if (dynamic_cast<const hls::MemoryResponseOperation *>(&op)) c.k = KMemResp;
    else if (dynamic_cast<const hls::LocalMemoryRequestOperation *>(&op)) c.k = KLocalMem;
    else if (dynamic_cast<const hls::LocalLoadOperation *>(&op)) c.k = KLocalLoad;
    else if (dynamic_cast<const hls::LocalStoreOperation *>(&op)) c.k = KLocalStore;
    else if (dynamic_cast<const hls::SinkOperation *>(&op)) c.k = KSink;
    else if (dynamic_cast<const hls::TriggerOperation *>(&op)) c.k = KTrigger;
    else
    {
      if (n.noutputs() != 1)
      {
        unsupported = op.debug_string();
        return;
      }
      simpleFn(c);
    }
    census[nm]++;
    size_t firstIn = 0;
    const rvsdg::Node * resp = nullptr;
    if (c.k == KLocalMem)
    {
      firstIn = 1;
      auto memOut = n.input(0)->origin();
      auto mo = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*memOut);
      auto user = &*mo->output(0)->Users().begin();
      resp = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*user);
      auto at = dynamic_cast<const L::ArrayType *>(mo->output(0)->Type().get());
      c.mem.resize(at->nelements());
      for (auto & x : c.mem)
        x = r.next() & mask(width(at->element_type()));
      c.nloads = resp->noutputs();
      for (size_t i = 0; i < resp->noutputs(); i++)
      {
        int ch = chan(resp->output(i));
        chans[ch].src = ix;
        c.out.push_back(ch);
      }
    }
    for (size_t i = firstIn; i < n.ninputs(); i++)
    {
      int ch = consume(n.input(i)->origin(), ix);
      if (slack && around)
      {
        int bx = comps.size(), nc = chans.size();
        chans[ch].dst = bx;
        chans.emplace_back();
        chans[nc].what = "slack";
        chans[nc].src = bx;
        chans[nc].dst = ix;
        comps.emplace_back();
        auto & b = comps.back();
        b.k = KBuffer;
        b.name = "SLACK";
        b.node = &n;
        b.cap = 1u << 20;
        b.pass = true;
        b.in = { ch };
        b.out = { nc };
        b.fired.assign(2, 0);
        b.reg.assign(2, 0);
        ch = nc;
      }
      comps[ix].in.push_back(ch);
    }
    for (size_t i = 0; i < n.noutputs(); i++)
    {
      int ch = chan(n.output(i));
      chans[ch].src = ix;
      comps[ix].out.push_back(ch);
    }
    auto & cc = comps[ix];
    cc.fired.assign(std::max(cc.out.size(), cc.in.size()) + 1, 0);
    cc.reg.assign(cc.out.size() + 1, 0);
    reset(cc);
  }
  void reset(Comp & c)
  {
    if (c.k == KPredBuf)
    {
      c.flag = true;
      c.data = 0;
    }
  }
  void addRegion(rvsdg::Region & reg, std::map<std::string, uint64_t> & census)
  {
    for (auto & n : reg.Nodes())
    {
      if (auto l = dynamic_cast<const hls::LoopNode *>(&n))
      {
        census["HLS_LOOP"]++;
        addRegion(*l->subregion(), census);
      }
      else if (auto s = dynamic_cast<const rvsdg::SimpleNode *>(&n))
        addNode(*s, census);
      else if (err.empty())
        err = "structural node left in the circuit: " + n.DebugString();
    }
  }
  void touch(int comp)
  {
    if (comp >= 0 && !queued[comp])
    {
      queued[comp] = 1;
      work.push_back(comp);
    }
  }
  void setV(int ch, bool v, uint64_t d = 0)
  {
    auto & c = chans[ch];
    if (!v)
      d = c.d;
    if (c.v != v || c.d != d)
    {
      c.v = v;
      c.d = d;
      touch(c.dst);
    }
  }
  void setR(int ch, bool rdy)
  {
    auto & c = chans[ch];
    if (c.r != rdy)
    {
      c.r = rdy;
      touch(c.src);
    }
  }
  void eval(Comp & c)
  {
    auto V = [&](size_t i) { return chans[c.in[i]].v; };
    auto D = [&](size_t i) { return chans[c.in[i]].d; };
    auto R = [&](size_t i) { return chans[c.out[i]].r; };
    bool all = true;
    switch (c.k)
    {
    case KSimple:
    {
      uint64_t x[64];
      for (size_t i = 0; i < c.in.size(); i++)
      {
        all &= V(i);
        if (i < 64)
          x[i] = D(i);
      }
      setV(c.out[0], all, all ? c.fn(x) : 0);
      for (size_t i = 0; i < c.in.size(); i++)
        setR(c.in[i], all && R(0));
      break;
    }
    case KDMux:
    {
      for (size_t i = 0; i < c.in.size(); i++)
        all &= V(i);
      uint64_t sel = D(0);
      setV(c.out[0], all, all && sel + 1 < c.in.size() ? D(sel + 1) : 0);
      for (size_t i = 0; i < c.in.size(); i++)
        setR(c.in[i], all && R(0));
      break;
    }
    case KCFork:
      setR(c.in[0], true);
      for (auto o : c.out)
        setV(o, V(0), D(0));
      break;
    case KFork:
    {
      bool done = V(0);
      for (size_t i = 0; i < c.out.size(); i++)
      {
        setV(c.out[i], V(0) && !c.fired[i], D(0));
        done &= R(i) || c.fired[i];
      }
      setR(c.in[0], done);
      break;
    }
    case KGate:
    {
      for (size_t i = 0; i < c.in.size(); i++)
        all &= V(i);
      bool done = true;
      for (size_t i = 0; i < c.out.size(); i++)
      {
        setV(c.out[i], all && !c.fired[i], D(i));
        done &= (all && !c.fired[i] && R(i)) || c.fired[i];
      }
      for (auto i : c.in)
        setR(i, done);
      break;
    }
    case KMux:
    {
      size_t sel = V(0) ? D(0) + 1 : 0;
      bool ok = sel > 0 && sel < c.in.size();
      setV(c.out[0], ok && V(sel), ok ? D(sel) : 0);
      setR(c.in[0], ok && R(0) && V(sel));
      for (size_t i = 1; i < c.in.size(); i++)
        setR(c.in[i], ok && i == sel && R(0));
      break;
    }
    case KBranch:
    {
      size_t sel = V(0) ? D(0) : c.out.size();
      for (size_t i = 0; i < c.out.size(); i++)
        setV(c.out[i], i == sel && V(1), D(1));
      bool rdy = sel < c.out.size() && R(sel);
      setR(c.in[1], rdy);
      setR(c.in[0], rdy && V(1));
      break;
    }
    case KPredBuf:
      setV(c.out[0], c.flag || V(0), c.flag ? c.data : D(0));
      setR(c.in[0], !c.flag);
      break;
    case KLoopConst:
    {
      bool p = V(0), rep = D(0) != 0;
      bool ov = p && (rep || V(1));
      setV(c.out[0], ov, rep ? c.data : D(1));
      setR(c.in[0], R(0) && ov);
      setR(c.in[1], R(0) && p && !rep);
      break;
    }
    case KBuffer:
      if (c.pass && c.q.empty())
        setV(c.out[0], V(0), D(0));
      else
        setV(c.out[0], !c.q.empty(), c.q.empty() ? 0 : c.q.front());
      setR(c.in[0], c.q.size() < c.cap);
      break;
    case KAddrQueue:
    {
      bool in = false;
      for (auto a : c.q)
        in |= a == D(0);
      if (c.pass)
        in |= V(1) && D(1) == D(0);
      bool ov = V(0) && !in;
      setV(c.out[0], ov, D(0));
      setR(c.in[0], R(0) && ov);
      setR(c.in[1], c.q.size() < c.cap);
      setR(c.in[2], !c.q.empty());
      break;
    }
    case KLoad:
    case KLocalLoad:
    {
      size_t ns = c.out.size() - 1; // data and states
      bool can = !c.flag;
      for (size_t i = 0; i + 1 < c.in.size(); i++)
        can &= V(i);
      for (size_t i = 0; i < ns; i++)
        can &= !c.fired[i];
      setV(c.out[ns], can, D(0));
      bool rf = c.flag && V(c.in.size() - 1);
      setV(c.out[0], c.fired[0] || rf, rf ? D(c.in.size() - 1) : c.reg[0]);
      for (size_t i = 1; i < ns; i++)
        setV(c.out[i], c.fired[i], 0);
      bool go = can && R(ns);
      for (size_t i = 0; i + 1 < c.in.size(); i++)
        setR(c.in[i], go);
      setR(c.in.back(), c.flag);
      break;
    }
    case KDecLoad:
    {
      bool room = c.outstanding + c.q.size() < c.cap;
      setV(c.out[1], V(0) && room, D(0));
      setR(c.in[0], R(1) && room);
      if (c.q.empty())
        setV(c.out[0], V(1), D(1));
      else
        setV(c.out[0], true, c.q.front());
      setR(c.in[1], true);
      break;
    }
    case KStore:
    {
      size_t ns = c.out.size() - 2;
      for (size_t i = 0; i + 1 < c.in.size(); i++)
        all &= V(i);
      setV(c.out[ns], all, D(0));
      setV(c.out[ns + 1], all, D(1));
      bool rdy = true;
      for (size_t i = 0; i < ns; i++)
      {
        setV(c.out[i], V(c.in.size() - 1), 0);
        rdy &= R(i);
      }
      setR(c.in.back(), rdy);
      for (size_t i = 0; i + 1 < c.in.size(); i++)
        setR(c.in[i], all && R(ns));
      break;
    }
    case KLocalStore:
    {
      size_t ns = c.out.size() - 2;
      for (size_t i = 0; i < c.in.size(); i++)
        all &= V(i);
      for (size_t i = 0; i < ns; i++)
        all &= !c.fired[i];
      setV(c.out[ns], all, D(0));
      setV(c.out[ns + 1], all, D(1));
      for (size_t i = 0; i < ns; i++)
        setV(c.out[i], c.fired[i], 0);
      for (size_t i = 0; i < c.in.size(); i++)
        setR(c.in[i], all && R(ns));
      break;
    }
    case KMemReq:
    {
      auto & o = chans[c.out[0]];
      bool granted = false;
      Chan old = o;
      for (size_t i = 0; i < c.widths.size(); i++)
      {
        bool st = i >= c.nloads;
        size_t a = st ? c.nloads + 2 * (i - c.nloads) : i;
        bool g = !granted && V(a) && (!st || V(a + 1));
        if (g)
        {
          o.addr = D(a);
          o.id = i;
          o.size = c.widths[i] / 8;
          o.write = st;
          o.d = st ? D(a + 1) : 0;
        }
        granted |= g;
        setR(c.in[a], g && o.r);
        if (st)
          setR(c.in[a + 1], g && o.r);
      }
      o.v = granted;
      break;
    }
    case KMemResp:
    {
      auto & i0 = chans[c.in[0]];
      bool rdy = true;
      for (size_t i = 0; i < c.out.size(); i++)
      {
        bool me = i0.v && i0.id == i;
        setV(c.out[i], me, me ? i0.d & mask(width(*c.node->output(i)->Type())) : 0);
        if (me)
          rdy = R(i);
      }
      setR(c.in[0], rdy);
      break;
    }
    case KLocalMem:
    {
      bool taken = false;
      for (size_t i = c.nloads; i + 1 < c.in.size(); i += 2)
      {
        bool g = !taken && V(i) && V(i + 1);
        taken |= g;
        setR(c.in[i], g);
        setR(c.in[i + 1], g);
      }
      for (size_t i = 0; i < c.nloads; i++)
      {
        bool g = !taken && V(i);
        taken |= g;
        setR(c.in[i], g);
      }
      for (size_t i = 0; i < c.nloads; i++)
        setV(c.out[i], c.pending == (int)i, c.data);
      break;
    }
    case KSink:
      setR(c.in[0], true);
      break;
    case KTrigger:
      setV(c.out[0], V(0) && V(1), D(1));
      setR(c.in[0], R(0) && V(1));
      setR(c.in[1], R(0) && V(0));
      break;
    }
  }
  void clock(Comp & c)
  {
    auto F = [&](int ch) { return chans[ch].fire(); };
    switch (c.k)
    {
    case KFork:
    case KGate:
    {
      bool done = chans[c.in[0]].r && (c.k == KGate || chans[c.in[0]].v);
      if (c.k == KGate)
      {
        done = true;
        for (auto i : c.in)
          done &= chans[i].fire();
      }
      for (size_t i = 0; i < c.out.size(); i++)
        c.fired[i] = done ? 0 : c.fired[i] | F(c.out[i]);
      break;
    }
    case KPredBuf:
      if (F(c.in[0]))
      {
        c.flag = true;
        c.data = chans[c.in[0]].d;
      }
      if (F(c.out[0]))
        c.flag = false;
      break;
    case KLoopConst:
      if (F(c.in[1]))
        c.data = chans[c.in[1]].d;
      break;
    case KBuffer:
    {
      bool i = F(c.in[0]), o = F(c.out[0]);
      if (c.pass && c.q.empty())
      {
        if (i && !o)
          c.q.push_back(chans[c.in[0]].d);
        break;
      }
      if (o)
        c.q.pop_front();
      if (i)
        c.q.push_back(chans[c.in[0]].d);
      break;
    }
    case KAddrQueue:
    {
      bool e = F(c.in[1]), d = F(c.in[2]);
      if (d)
        c.q.pop_front();
      if (e)
        c.q.push_back(chans[c.in[1]].d);
      break;
    }
    case KLoad:
    case KLocalLoad:
    {
      size_t ns = c.out.size() - 1;
      bool rf = c.flag && chans[c.in.back()].v;
      bool req = F(c.out[ns]);
      for (size_t i = 1; i < ns; i++)
        if (F(c.out[i]))
          c.fired[i] = 0;
      if (rf)
      {
        c.flag = false;
        c.reg[0] = chans[c.in.back()].d;
        c.fired[0] = 1;
      }
      if (req)
      {
        c.flag = true;
        for (size_t i = 1; i < ns; i++)
          c.fired[i] = 1;
      }
      if (F(c.out[0]))
        c.fired[0] = 0;
      break;
    }
    case KDecLoad:
    {
      if (F(c.out[1]))
        c.outstanding++;
      bool resp = F(c.in[1]), o = F(c.out[0]);
      if (resp)
        c.outstanding--;
      bool direct = c.q.empty();
      if (o && !direct)
        c.q.pop_front();
      if (resp && !(direct && o))
        c.q.push_back(chans[c.in[1]].d);
      break;
    }
    case KLocalStore:
    {
      size_t ns = c.out.size() - 2;
      for (size_t i = 0; i < ns; i++)
        if (F(c.out[i]))
          c.fired[i] = 0;
      if (F(c.out[ns]))
        for (size_t i = 0; i < ns; i++)
          c.fired[i] = 1;
      break;
    }
    case KLocalMem:
    {
      if (c.pending >= 0 && !F(c.out[c.pending]))
        err = "a response of the local memory is lost";
      c.pending = -1;
      auto index = [&](int ch) -> size_t
      {
        auto a = chans[ch].d;
        if (a >= c.mem.size())
        {
          err = "local memory access out of bounds";
          return 0;
        }
        return a;
      };
      for (size_t i = c.nloads; i + 1 < c.in.size(); i += 2)
        if (F(c.in[i]))
          c.mem[index(c.in[i])] = chans[c.in[i + 1]].d;
      for (size_t i = 0; i < c.nloads; i++)
        if (F(c.in[i]))
        {
          c.pending = i;
          c.data = c.mem[index(c.in[i])];
        }
      break;
    }
    default:
      break;
    }
  }
};

HlsSim::HlsSim(jlm::llvm::LlvmRvsdgModule & rm, Rng & r, bool slack) : I(new Impl(r))
{
  I->slack = slack;
  auto & root = rm.Rvsdg().GetRootRegion();
  for (auto & n : root.Nodes())
    if (auto l = dynamic_cast<rvsdg::LambdaNode *>(&n))
    {
      if (I->lambda)
        setupError = "two functions";
      I->lambda = l;
    }
  if (!I->lambda)
  {
    setupError = "no function";
    return;
  }
  auto sub = I->lambda->subregion();
  I->addRegion(*sub, census);
  std::vector<int> memResps, memReqs;
  std::map<const rvsdg::RegionArgument *, std::string> global;
  for (auto & cv : I->lambda->GetContextVars())
    if (auto gi = dynamic_cast<const L::LlvmGraphImport *>(cv.input->origin()))
      global[dynamic_cast<const rvsdg::RegionArgument *>(cv.inner)] = gi->Name();
  for (auto & a : sub->Arguments())
  {
    int ch = I->chan(a);
    if (dynamic_cast<const hls::BundleType *>(a->Type().get()))
      memResps.push_back(ch);
    else
      I->args.push_back({ ch, a, global.count(a) ? global[a] : "" });
  }
  for (auto & res : sub->Results())
  {
    int ch = I->consume(res->origin(), -2);
    if (dynamic_cast<const hls::BundleType *>(res->Type().get()))
      memReqs.push_back(ch);
    else
      I->results.push_back({ ch, res });
  }
  if (memReqs.size() != memResps.size())
    setupError = "memory requests and responses do not pair up";
  else
    for (size_t i = 0; i < memReqs.size(); i++)
      I->ports.push_back({ memReqs[i], memResps[i] });
  if (setupError.empty())
    setupError = I->err;
  unsupported = I->unsupported;
  for (auto & c : I->chans)
    if (c.dst == -1 && setupError.empty())
      setupError = "nothing consumes " + c.what;
  I->queued.assign(I->comps.size(), 0);
}
void HlsSim::dump()
{
  auto & S = *I;
  auto ch = [&](int c) { return std::to_string(c) + (S.chans[c].v ? "v" : "") + (S.chans[c].r ? "r" : "") + (S.chans[c].v ? "=" + std::to_string(S.chans[c].d) : ""); };
  for (auto & a : S.args)
    fprintf(stderr, "arg -> %s %s\n", ch(a.chan).c_str(), a.global.c_str());
  for (size_t i = 0; i < S.comps.size(); i++)
  {
    auto & c = S.comps[i];
    std::string l = std::to_string(i) + " " + c.name + " (";
    for (auto x : c.in) l += " " + ch(x);
    l += " ) -> (";
    for (auto x : c.out) l += " " + ch(x);
    l += " ) region " + std::to_string((size_t)c.node->region() % 99991) + " flag " + std::to_string(c.flag) + " q " + std::to_string(c.q.size());
    fprintf(stderr, "%s\n", l.c_str());
  }
  for (auto & r : S.results)
    fprintf(stderr, "result <- %s got %d\n", ch(r.chan).c_str(), r.got);
  for (auto & p : S.ports)
    fprintf(stderr, "port req %s resp %s q %zu\n", ch(p.req).c_str(), ch(p.resp).c_str(), p.q.size());
}
HlsSim::~HlsSim() = default;
size_t HlsSim::components() const { return I->comps.size(); }
size_t HlsSim::ports() const { return I->ports.size(); }

SimResult HlsSim::run(const std::vector<uint64_t> & args, const std::map<std::string, uint64_t> & globals, std::vector<SimRegion> & memory, int memLatency,
                      int stallPct, bool reorder)
{
  SimResult out;
  auto & S = *I;
  size_t ai = 0;
  for (auto & a : S.args)
  {
    a.pending = true;
    a.value = 0;
    if (!a.global.empty())
    {
      auto it = globals.find(a.global);
      if (it == globals.end())
      {
        out.inconclusive = "unknown global " + a.global;
        return out;
      }
      a.value = it->second;
    }
    else if (a.a->Type()->Kind() != rvsdg::TypeKind::State)
    {
      if (ai >= args.size())
      {
        out.err = "the circuit has more arguments than the function";
        return out;
      }
      a.value = args[ai++];
    }
  }
  if (ai != args.size())
  {
    out.err = "the circuit has " + std::to_string(ai) + " arguments, the function " + std::to_string(args.size());
    return out;
  }
  for (auto & r : S.results)
    r.got = false;
  uint64_t now = 0;
  int idle = 0;
  size_t evLimit = 400 * (S.comps.size() + 10);
  auto where = [&](uint64_t a, size_t n) -> bool
  {
    for (auto & m : memory)
      if (a >= (uint64_t)m.base && a + n <= (uint64_t)m.base + m.size)
        return true;
    return false;
  };
  for (;; now++)
  {
    for (auto & c : S.chans)
      c.v = c.r = false;
    for (auto & a : S.args)
      if (a.pending)
      {
        S.chans[a.chan].v = true;
        S.chans[a.chan].d = a.value;
      }
    for (auto & r : S.results)
      S.chans[r.chan].r = !r.got;
    for (auto & p : S.ports)
    {
      p.stall = S.r.chance(stallPct);
      S.chans[p.req].r = !p.stall && p.q.size() < 64;
      auto & rc = S.chans[p.resp];
      if (!p.q.empty() && p.q.front().due <= now)
      {
        rc.v = true;
        rc.d = p.q.front().data;
        rc.id = p.q.front().id;
      }
    }
    S.work.clear();
    for (size_t i = 0; i < S.comps.size(); i++)
    {
      S.queued[i] = 1;
      S.work.push_back(i);
    }
    size_t ev = 0;
    for (size_t h = 0; h < S.work.size(); h++)
    {
      int i = S.work[h];
      S.queued[i] = 0;
      S.eval(S.comps[i]);
      if (++ev > evLimit)
      {
        out.err = "the handshake signals do not settle";
        return out;
      }
    }
    bool any = false;
    for (auto & c : S.chans)
      if (c.fire() && c.src >= 0 && S.comps[c.src].k != KSimple)
        any = true, out.fires++;
    for (auto & c : S.comps)
      S.clock(c);
    if (!S.err.empty())
    {
      out.err = S.err;
      return out;
    }
    for (auto & a : S.args)
      if (a.pending && S.chans[a.chan].r)
      {
        a.pending = false;
        any = true;
      }
    for (auto & r : S.results)
      if (!r.got && S.chans[r.chan].v)
      {
        r.got = true;
        r.value = S.chans[r.chan].d;
        any = true;
      }
    for (auto & p : S.ports)
    {
      auto & q = S.chans[p.req];
      auto & rs = S.chans[p.resp];
      if (rs.fire())
      {
        p.q.pop_front();
        any = true;
      }
      if (!p.q.empty())
        any = true;
      if (p.stall && q.v)
        any = true;
      if (q.fire())
      {
        any = true;
        out.requests++;
        if (!where(q.addr, q.size))
        {
          char b[200];
          snprintf(b, sizeof b, "memory %s of %u bytes outside every object", q.write ? "write" : "read", q.size);
          out.err = b;
          return out;
        }
        Impl::Resp resp{ q.id, 0, now + 1 + (memLatency ? S.r.below(memLatency + 1) : 0) };
        if (q.write)
          memcpy((void *)q.addr, &q.d, q.size);
        else
          memcpy(&resp.data, (void *)q.addr, q.size);
        size_t at = p.q.size();
        if (reorder && S.r.chance(30))
          while (at > 0 && p.q[at - 1].id != resp.id && S.r.chance(60))
            at--;
        p.q.insert(p.q.begin() + at, resp);
      }
    }
    bool complete = true;
    for (auto & r : S.results)
      complete &= r.got;
    for (auto & a : S.args)
      complete &= !a.pending || a.a->Type()->Kind() == rvsdg::TypeKind::State; // only then is the circuit ready for the next call
    out.cycles = now + 1;
    if (complete)
      break;
    idle = any ? 0 : idle + 1;
    if (idle > 3)
    {
      std::string s;
      int n = 0;
      for (auto & c : S.chans)
        if (c.v && !c.r && c.src >= 0 && S.comps[c.src].k != KSimple && n++ < 12)
          s += " " + S.comps[c.src].name + "->" + (c.dst >= 0 ? S.comps[c.dst].name : "result");
      out.err = "deadlock after " + std::to_string(now) + " cycles; waiting:" + s;
      return out;
    }
    if (now > 400000)
    {
      out.inconclusive = "cycle limit";
      return out;
    }
  }
  for (auto & r : S.results)
    if (r.res->Type()->Kind() != rvsdg::TypeKind::State)
      out.ret = r.value;
  return out;
}
}
