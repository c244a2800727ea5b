#include "modes.hpp"
#include "modcheck.hpp"
#include "model.hpp"
#include "monitor.hpp"
#include "tap.hpp"
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/structural-node.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <jlm/rvsdg/view.hpp>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
namespace vh
{
// a copy of a graph has the same structure: every node of the copy has the operation, operands, results and subregions
// of its counterpart
struct Matcher
{
  std::unordered_map<const jlm::rvsdg::Output *, const jlm::rvsdg::Output *> fwd, bwd;
  std::string err;
  bool fail(const std::string & s)
  {
    if (err.empty())
      err = s;
    return false;
  }
  bool bind(const jlm::rvsdg::Output & a, const jlm::rvsdg::Output & b)
  {
    if (*a.Type() != *b.Type())
      return fail("types of " + a.debug_string());
    auto f = fwd.emplace(&a, &b), g = bwd.emplace(&b, &a);
    if (f.first->second != &b || g.first->second != &a)
      return fail("sharing of " + a.debug_string());
    return true;
  }
  // operations that make new objects are not even equal to copies of themselves
  bool sameOp(const jlm::rvsdg::Operation & a, const jlm::rvsdg::Operation & b)
  {
    return typeid(a) == typeid(b) && (a == b || (*a.copy() != a && a.debug_string() == b.debug_string()));
  }
  bool input(const jlm::rvsdg::Input & a, const jlm::rvsdg::Input & b)
  {
    auto it = fwd.find(a.origin());
    if (it == fwd.end() || it->second != b.origin())
      return fail("the origin of an input of " + (std::holds_alternative<jlm::rvsdg::Node *>(a.GetOwner()) ? std::get<jlm::rvsdg::Node *>(a.GetOwner())->DebugString() : std::string("a region")));
    return true;
  }
  bool region(jlm::rvsdg::Region & a, jlm::rvsdg::Region & b)
  {
    if (a.narguments() != b.narguments() || a.nresults() != b.nresults() || a.numNodes() != b.numNodes())
      return fail("the size of a region");
    for (size_t i = 0; i < a.narguments(); i++)
      if (!bind(*a.argument(i), *b.argument(i)))
        return false;
    // nodes are matched by operation and operands; equal candidates are interchangeable only if they are matched in order of
    // creation, which is the order in which a copy creates them
    std::vector<jlm::rvsdg::Node *> order;
    for (auto n : jlm::rvsdg::TopDownTraverser(&a))
      order.push_back(n);
    std::unordered_set<jlm::rvsdg::Node *> taken;
    std::vector<jlm::rvsdg::Node *> tops;
    for (auto & n : b.TopNodes())
      tops.push_back(&n);
    for (auto n : order)
    {
      std::vector<jlm::rvsdg::Node *> cand;
      if (n->ninputs() == 0)
        cand = tops;
      else
      {
        auto it = fwd.find(n->input(0)->origin());
        if (it == fwd.end())
          return fail("an operand is not matched");
        for (auto & u : const_cast<jlm::rvsdg::Output *>(it->second)->Users())
          if (auto own = u.GetOwner(); std::holds_alternative<jlm::rvsdg::Node *>(own) && u.index() == 0)
            cand.push_back(std::get<jlm::rvsdg::Node *>(own));
      }
      std::sort(cand.begin(), cand.end(), [](auto x, auto y) { return x->GetNodeId() < y->GetNodeId(); });
      jlm::rvsdg::Node * m = nullptr;
      for (auto c : cand)
      {
        if (taken.count(c) || c->ninputs() != n->ninputs() || c->noutputs() != n->noutputs() || !sameOp(c->GetOperation(), n->GetOperation()))
          continue;
        bool same = true;
        for (size_t i = 0; i < n->ninputs() && same; i++)
        {
          auto it = fwd.find(n->input(i)->origin());
          same = it != fwd.end() && it->second == c->input(i)->origin();
        }
        if (same)
        {
          m = c;
          break;
        }
      }
      if (!m)
        return fail("there is no counterpart of " + n->DebugString());
      taken.insert(m);
      for (size_t i = 0; i < n->noutputs(); i++)
        if (!bind(*n->output(i), *m->output(i)))
          return false;
      if (auto sa = dynamic_cast<jlm::rvsdg::StructuralNode *>(n))
      {
        auto sb = dynamic_cast<jlm::rvsdg::StructuralNode *>(m);
        if (!sb || sa->nsubregions() != sb->nsubregions())
          return fail("the subregions of " + n->DebugString());
        for (size_t k = 0; k < sa->nsubregions(); k++)
          if (!region(*sa->subregion(k), *sb->subregion(k)))
            return false;
      }
    }
    for (size_t i = 0; i < a.nresults(); i++)
      if (!input(*a.result(i), *b.result(i)))
        return false;
    return true;
  }
};
static std::string checkCopy(jlm::rvsdg::Graph & g)
{
  auto before = jlm::rvsdg::view(&g.GetRootRegion());
  auto c = g.Copy();
  if (jlm::rvsdg::view(&g.GetRootRegion()) != before)
    return "copying a graph changed the original";
  GraphStats st;
  auto e = checkGraph(*c, st);
  if (!e.empty())
    return "copy of the graph: " + e;
  e = checkGraph(g, st);
  if (!e.empty())
    return "after copying the graph: " + e;
  Matcher m;
  if (!m.region(g.GetRootRegion(), c->GetRootRegion()))
    return "the copy of a graph differs from the graph: " + m.err;
  return "";
}
void modeHooks(const std::string & mode, const Program & p, TransformHooks & h)
{
  if (isTapMode(mode))
    tapHooks(mode, p.tapSeed, p.noMask, h);
  if (mode == "san" || mode == "mod")
    h.execute = false;
  if (mode == "wf")
  {
    h.execute = false;
    h.afterStage = [](jlm::llvm::LlvmRvsdgModule & m, const std::string & stage) -> std::string
    {
      GraphStats st;
      auto e = checkGraph(m.Rvsdg(), st);
      childStat("graphs", 1);
      childStat("nodes", st.nodes);
      childStat("edges", st.edges);
      childStat("regions", st.regions);
      childStat("thetas", st.thetas);
      childStat("gammas", st.gammas);
      childStat("lambdas", st.lambdas);
      childStat("phis", st.phis);
      childStat("deltas", st.deltas);
      if (e.empty() && (stage == "frontend" || st.nodes % 3 == 0))
      {
        e = checkCopy(m.Rvsdg());
        childStat("copies", 1);
      }
      return e;
    };
  }
}
std::string modePost(const std::string & mode, const Program & p, const std::vector<std::string> & passes, const Outcome & o, Report & rep)
{
  if (mode == "mod")
    return checkModule(p.text, o.outText, !passes.empty(), rep.stats);
  return "";
}
int runMode(const std::string & cmd, const Args & a, int (*diffMode)(const Args &, const std::string &))
{
  if (cmd == "rt" || cmd == "opt" || cmd == "wf" || cmd == "san" || cmd == "mod" || isTapMode(cmd))
    return diffMode(a, cmd);
  if (cmd == "layout")
    return layoutMode(a);
  if (cmd == "bits")
    return bitsMode(a);
  if (cmd == "bitgraph")
    return bitGraphMode(a);
  if (cmd == "hls")
    return hlsMode(a);
  if (cmd == "known-hls")
    return hlsKnownMode(a);
  if (cmd == "cont")
    return contMode(a);
  if (cmd == "api")
    return apiMode(a);
  fprintf(stderr, "unknown command %s\n", cmd.c_str());
  return 2;
}
}
