// Checks that a graph is a well-formed RVSDG; written against the definition of the representation, not against the
// classes' own assertions.
#include "monitor.hpp"
#include <jlm/llvm/ir/operators/delta.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace jlm;
using namespace jlm::rvsdg;

namespace vh
{
namespace
{
struct Checker
{
  GraphStats & st;
  std::set<size_t> regionIds;
  std::string err;

  bool fail(const std::string & what, const Region & r, const Node * n = nullptr)
  {
    if (err.empty())
    {
      err = what;
      if (n)
        err += " [node " + n->DebugString() + "]";
      if (r.node())
        err += " [in a region of " + r.node()->DebugString() + "]";
      else
        err += " [in the root region]";
    }
    return false;
  }
#define REQ(c, ...)                                                                                                                        \
  if (!(c))                                                                                                                                \
  return fail(__VA_ARGS__)

  bool edge(Input & in, Region & r, const Node * n)
  {
    st.edges++;
    auto o = in.origin();
    REQ(o != nullptr, "input without origin", r, n);
    REQ(o->region() == &r, "the origin of an input is in another region", r, n);
    REQ(in.region() == &r, "an input claims another region", r, n);
    REQ(*o->Type() == *in.Type(), "an input has another type than its origin: " + in.Type()->debug_string() + " <- " + o->Type()->debug_string(), r, n);
    return true;
  }
  bool output(Output & out, Region & r, const Node * n, std::unordered_set<Input *> & inputsOfRegion)
  {
    REQ(out.region() == &r, "an output claims another region", r, n);
    size_t k = 0;
    std::set<Input *> seen;
    for (auto & u : out.Users())
    {
      REQ(seen.insert(&u).second, "an output lists a user twice", r, n);
      REQ(u.origin() == &out, "a user of an output has another origin", r, n);
      REQ(inputsOfRegion.count(&u), "a user of an output is not part of the region", r, n);
      k++;
    }
    REQ(k == out.nusers(), "nusers() differs from the number of users", r, n);
    REQ(out.IsDead() == (k == 0), "IsDead() disagrees with the users", r, n);
    return true;
  }
  bool region(Region & r)
  {
    st.regions++;
    REQ(regionIds.insert(r.getRegionId()).second, "two regions have the same id", r);
    REQ(r.getDepth() == (r.node() ? r.node()->region()->getDepth() + 1 : 0), "wrong region depth", r);
    std::vector<Node *> nodes;
    std::unordered_set<const Node *> nodeSet;
    std::unordered_set<Input *> inputs;
    std::unordered_set<size_t> ids;
    for (auto & n : r.Nodes())
    {
      nodes.push_back(&n);
      REQ(nodeSet.insert(&n).second, "a node is listed twice", r, &n);
      REQ(n.region() == &r, "a node claims another region", r, &n);
      REQ(n.graph() == r.graph(), "a node claims another graph", r, &n);
      REQ(ids.insert(n.GetNodeId()).second, "two nodes have the same id", r, &n);
      size_t i = 0;
      for (auto & in : n.Inputs())
      {
        REQ(in.index() == i && n.input(i) == &in, "wrong input index", r, &n);
        REQ(std::holds_alternative<Node *>(in.GetOwner()) && std::get<Node *>(in.GetOwner()) == &n, "an input claims another owner", r, &n);
        inputs.insert(&in);
        i++;
      }
      REQ(i == n.ninputs(), "ninputs() differs from the number of inputs", r, &n);
      i = 0;
      for (auto & o : n.Outputs())
      {
        REQ(o.index() == i && n.output(i) == &o, "wrong output index", r, &n);
        REQ(std::holds_alternative<Node *>(o.GetOwner()) && std::get<Node *>(o.GetOwner()) == &n, "an output claims another owner", r, &n);
        i++;
      }
      REQ(i == n.noutputs(), "noutputs() differs from the number of outputs", r, &n);
    }
    st.nodes += nodes.size();
    REQ(nodes.size() == r.numNodes(), "numNodes() differs from the number of nodes", r);
    size_t i = 0;
    for (auto res : r.Results())
    {
      REQ(res->index() == i && r.result(i) == res, "wrong result index", r);
      REQ(std::holds_alternative<Region *>(res->GetOwner()) && std::get<Region *>(res->GetOwner()) == &r, "a result claims another owner", r);
      inputs.insert(res);
      i++;
    }
    REQ(i == r.nresults(), "nresults() is wrong", r);
    i = 0;
    for (auto a : r.Arguments())
    {
      REQ(a->index() == i && r.argument(i) == a, "wrong argument index", r);
      REQ(std::holds_alternative<Region *>(a->GetOwner()) && std::get<Region *>(a->GetOwner()) == &r, "an argument claims another owner", r);
      i++;
    }
    REQ(i == r.narguments(), "narguments() is wrong", r);
    // edges in both directions
    for (auto n : nodes)
    {
      for (auto & in : n->Inputs())
        if (!edge(in, r, n))
          return false;
      for (auto & o : n->Outputs())
        if (!output(o, r, n, inputs))
          return false;
    }
    for (auto a : r.Arguments())
      if (!output(*a, r, nullptr, inputs))
        return false;
    for (auto res : r.Results())
      if (!edge(*res, r, nullptr))
        return false;
    // top and bottom nodes
    std::unordered_set<const Node *> top, bottom;
    for (auto & n : r.TopNodes())
      REQ(top.insert(&n).second, "a top node is listed twice", r, &n);
    for (auto & n : r.BottomNodes())
      REQ(bottom.insert(&n).second, "a bottom node is listed twice", r, &n);
    REQ(top.size() == r.numTopNodes(), "numTopNodes() is wrong", r);
    REQ(bottom.size() == r.numBottomNodes(), "numBottomNodes() is wrong", r);
    for (auto n : nodes)
    {
      REQ((n->ninputs() == 0) == (top.count(n) != 0), "the top nodes are wrong", r, n);
      bool dead = true;
      for (auto & o : n->Outputs())
        dead &= o.nusers() == 0;
      REQ(dead == n->IsDead(), "IsDead() of a node is wrong", r, n);
      REQ(dead == (bottom.count(n) != 0), "the bottom nodes are wrong", r, n);
    }
    for (auto n : top)
      REQ(nodeSet.count(n), "a top node is not in the region", r, n);
    for (auto n : bottom)
      REQ(nodeSet.count(n), "a bottom node is not in the region", r, n);
    // acyclic: Kahn's algorithm
    {
      std::unordered_map<const Node *, size_t> pending;
      std::vector<const Node *> work;
      for (auto n : nodes)
      {
        size_t k = 0;
        for (auto & in : n->Inputs())
          if (std::holds_alternative<Node *>(in.origin()->GetOwner()))
            k++;
        pending[n] = k;
        if (!k)
          work.push_back(n);
      }
      size_t done = 0;
      while (!work.empty())
      {
        auto n = work.back();
        work.pop_back();
        done++;
        for (size_t o = 0; o < n->noutputs(); o++)
          for (auto & u : n->output(o)->Users())
            if (auto own = u.GetOwner(); std::holds_alternative<Node *>(own))
              if (--pending[std::get<Node *>(own)] == 0)
                work.push_back(std::get<Node *>(own));
      }
      REQ(done == nodes.size(), "the graph of a region has a cycle", r);
    }
    // the traversers agree
    {
      std::unordered_map<const Node *, size_t> pos;
      for (auto n : TopDownTraverser(&r))
        REQ(pos.emplace(n, pos.size()).second, "the top-down traverser visits a node twice", r, n);
      REQ(pos.size() == nodes.size(), "the top-down traverser does not visit every node", r);
      for (auto n : nodes)
        for (auto & in : n->Inputs())
          if (auto own = in.origin()->GetOwner(); std::holds_alternative<Node *>(own))
            REQ(pos[std::get<Node *>(own)] < pos[n], "the top-down traverser visits a node before its operand", r, n);
      pos.clear();
      for (auto n : BottomUpTraverser(&r))
        REQ(pos.emplace(n, pos.size()).second, "the bottom-up traverser visits a node twice", r, n);
      REQ(pos.size() == nodes.size(), "the bottom-up traverser does not visit every node", r);
      for (auto n : nodes)
        for (auto & in : n->Inputs())
          if (auto own = in.origin()->GetOwner(); std::holds_alternative<Node *>(own))
            REQ(pos[std::get<Node *>(own)] > pos[n], "the bottom-up traverser visits a node before its user", r, n);
    }
    for (auto n : nodes)
      if (!node(*n, r))
        return false;
    return true;
  }

  bool node(Node & n, Region & r)
  {
    if (auto s = dynamic_cast<SimpleNode *>(&n))
    {
      auto & op = s->GetOperation();
      st.ops[std::string(typeid(op).name())]++;
      REQ(op.narguments() == n.ninputs(), "a simple node has another number of inputs than its operation", r, &n);
      REQ(op.nresults() == n.noutputs(), "a simple node has another number of outputs than its operation", r, &n);
      for (size_t i = 0; i < n.ninputs(); i++)
        REQ(*op.argument(i) == *n.input(i)->Type(), "an input of a simple node has another type than the operand of its operation", r, &n);
      for (size_t i = 0; i < n.noutputs(); i++)
        REQ(*op.result(i) == *n.output(i)->Type(), "an output of a simple node has another type than the result of its operation", r, &n);
      if (auto m = dynamic_cast<const MatchOperation *>(&op))
      {
        for (auto & p : *m)
          REQ(p.second < m->nalternatives(), "a match operation maps to an alternative that does not exist", r, &n);
        REQ(m->default_alternative() < m->nalternatives(), "the default alternative of a match operation does not exist", r, &n);
      }
      if (auto c = dynamic_cast<const ControlConstantOperation *>(&op))
        REQ(c->value().alternative() < c->value().nalternatives(), "a control constant is out of range", r, &n);
      return true;
    }
    auto sn = dynamic_cast<StructuralNode *>(&n);
    REQ(sn, "a node is neither simple nor structural", r, &n);
    REQ(sn->nsubregions() > 0, "a structural node without subregions", r, &n);
    for (size_t i = 0; i < sn->nsubregions(); i++)
    {
      auto & sub = *sn->subregion(i);
      REQ(sub.node() == sn, "a subregion claims another node", r, &n);
      REQ(sub.index() == i, "wrong subregion index", r, &n);
      REQ(sub.graph() == r.graph(), "a subregion claims another graph", r, &n);
    }
    st.structural++;
    bool ok = true;
    if (auto t = dynamic_cast<ThetaNode *>(&n))
      ok = theta(*t, r);
    else if (auto g = dynamic_cast<GammaNode *>(&n))
      ok = gamma(*g, r);
    else if (auto l = dynamic_cast<LambdaNode *>(&n))
      ok = lambda(*l, r);
    else if (auto p = dynamic_cast<PhiNode *>(&n))
      ok = phi(*p, r);
    else if (auto d = dynamic_cast<DeltaNode *>(&n))
      ok = delta(*d, r);
    if (!ok)
      return false;
    for (size_t i = 0; i < sn->nsubregions(); i++)
      if (!region(*sn->subregion(i)))
        return false;
    return true;
  }
  bool theta(ThetaNode & t, Region & r)
  {
    st.thetas++;
    REQ(t.nsubregions() == 1, "a theta node needs one subregion", r, &t);
    auto & s = *t.subregion();
    auto vars = t.GetLoopVars();
    REQ(t.ninputs() == vars.size() && t.noutputs() == vars.size() && s.narguments() == vars.size() && s.nresults() == vars.size() + 1,
        "the loop variables of a theta node are inconsistent", r, &t);
    REQ(t.predicate() == s.result(0), "the predicate of a theta node is not its first result", r, &t);
    auto ct = dynamic_cast<const ControlType *>(t.predicate()->Type().get());
    REQ(ct && ct->nalternatives() == 2, "the predicate of a theta node is not of type ctl(2)", r, &t);
    for (size_t i = 0; i < vars.size(); i++)
    {
      auto & v = vars[i];
      REQ(v.input == t.input(i) && v.output == t.output(i) && v.pre == s.argument(i) && v.post == s.result(i + 1),
          "a loop variable connects the wrong ends", r, &t);
      REQ(s.argument(i)->input() == t.input(i) && s.result(i + 1)->output() == t.output(i), "an argument or result of a theta region is linked wrongly", r, &t);
      REQ(*v.input->Type() == *v.pre->Type() && *v.pre->Type() == *v.post->Type() && *v.post->Type() == *v.output->Type(),
          "the ends of a loop variable have different types", r, &t);
    }
    return true;
  }
  bool gamma(GammaNode & g, Region & r)
  {
    st.gammas++;
    auto ct = dynamic_cast<const ControlType *>(g.predicate()->Type().get());
    REQ(g.predicate() == g.input(0), "the predicate of a gamma node is not its first input", r, &g);
    REQ(ct && ct->nalternatives() == g.nsubregions(), "the predicate of a gamma node does not fit the number of subregions", r, &g);
    auto evs = g.GetEntryVars();
    auto xvs = g.GetExitVars();
    auto mv = g.GetMatchVar();
    REQ(g.ninputs() == evs.size() + 1 && g.noutputs() == xvs.size(), "the variables of a gamma node are inconsistent", r, &g);
    REQ(mv.matchContent.size() == g.nsubregions(), "the match variable of a gamma node does not cover all subregions", r, &g);
    for (size_t k = 0; k < g.nsubregions(); k++)
    {
      auto & s = *g.subregion(k);
      REQ(s.narguments() == g.ninputs(), "a gamma subregion has the wrong number of arguments", r, &g);
      REQ(s.nresults() == g.noutputs(), "a gamma subregion has the wrong number of results", r, &g);
      for (size_t i = 0; i < evs.size(); i++)
      {
        REQ(evs[i].input == g.input(i + 1) && evs[i].branchArgument.size() == g.nsubregions(), "an entry variable is inconsistent", r, &g);
        REQ(evs[i].branchArgument[k] == s.argument(i + 1) && s.argument(i + 1)->input() == g.input(i + 1), "an entry variable connects the wrong ends", r, &g);
        REQ(*evs[i].input->Type() == *evs[i].branchArgument[k]->Type(), "an entry variable has different types", r, &g);
      }
      for (size_t i = 0; i < xvs.size(); i++)
      {
        REQ(xvs[i].output == g.output(i) && xvs[i].branchResult.size() == g.nsubregions(), "an exit variable is inconsistent", r, &g);
        REQ(xvs[i].branchResult[k] == s.result(i) && s.result(i)->output() == g.output(i), "an exit variable connects the wrong ends", r, &g);
        REQ(*xvs[i].output->Type() == *xvs[i].branchResult[k]->Type(), "an exit variable has different types", r, &g);
      }
    }
    return true;
  }
  bool lambda(LambdaNode & l, Region & r)
  {
    st.lambdas++;
    auto & s = *l.subregion();
    REQ(l.nsubregions() == 1 && l.noutputs() == 1, "a lambda node needs one subregion and one output", r, &l);
    auto & ft = l.GetOperation().type();
    auto args = l.GetFunctionArguments();
    auto ress = l.GetFunctionResults();
    auto cvs = l.GetContextVars();
    REQ(args.size() == ft.NumArguments(), "a lambda has another number of arguments than its type", r, &l);
    REQ(ress.size() == ft.NumResults() && s.nresults() == ft.NumResults(), "a lambda has another number of results than its type", r, &l);
    REQ(s.narguments() == args.size() + cvs.size() && l.ninputs() == cvs.size(), "the context variables of a lambda are inconsistent", r, &l);
    for (size_t i = 0; i < args.size(); i++)
      REQ(args[i] == s.argument(i) && *args[i]->Type() == ft.ArgumentType(i), "an argument of a lambda has another type than the function type says", r, &l);
    for (size_t i = 0; i < ress.size(); i++)
      REQ(ress[i] == s.result(i) && *ress[i]->Type() == ft.ResultType(i), "a result of a lambda has another type than the function type says", r, &l);
    for (size_t i = 0; i < cvs.size(); i++)
    {
      REQ(cvs[i].input == l.input(i) && cvs[i].inner == s.argument(args.size() + i), "a context variable connects the wrong ends", r, &l);
      REQ(*cvs[i].input->Type() == *cvs[i].inner->Type(), "a context variable has different types", r, &l);
    }
    REQ(*l.output()->Type() == ft, "the output of a lambda is not of its function type", r, &l);
    return true;
  }
  bool phi(PhiNode & p, Region & r)
  {
    st.phis++;
    auto & s = *p.subregion();
    auto fvs = p.GetFixVars();
    auto cvs = p.GetContextVars();
    REQ(p.nsubregions() == 1 && p.noutputs() == fvs.size() && s.nresults() == fvs.size() && p.ninputs() == cvs.size()
            && s.narguments() == fvs.size() + cvs.size(), "the variables of a phi node are inconsistent", r, &p);
    std::set<const void *> seen;
    for (auto & f : fvs)
    {
      REQ(seen.insert(f.recref).second && seen.insert(f.result).second && seen.insert(f.output).second, "two fix variables share an end", r, &p);
      REQ(f.recref->region() == &s && f.result->region() == &s && f.output->region() == &r, "a fix variable connects the wrong ends", r, &p);
      REQ(*f.recref->Type() == *f.result->Type() && *f.result->Type() == *f.output->Type(), "a fix variable has different types", r, &p);
      REQ(f.result->index() == f.output->index(), "a fix variable connects the wrong ends", r, &p);
      auto own = f.result->origin()->GetOwner();
      REQ(std::holds_alternative<Node *>(own), "a fix variable is not defined by a node", r, &p);
    }
    for (auto & c : cvs)
    {
      REQ(seen.insert(c.inner).second && seen.insert(c.input).second, "two context variables share an end", r, &p);
      REQ(c.inner->region() == &s && c.input->region() == &r && *c.inner->Type() == *c.input->Type(), "a context variable of a phi node is inconsistent", r, &p);
    }
    return true;
  }
  bool delta(DeltaNode & d, Region & r)
  {
    st.deltas++;
    auto & s = *d.subregion();
    auto cvs = d.GetContextVars();
    REQ(d.nsubregions() == 1 && d.noutputs() == 1 && s.nresults() == 1 && d.ninputs() == cvs.size() && s.narguments() == cvs.size(),
        "the variables of a delta node are inconsistent", r, &d);
    for (size_t i = 0; i < cvs.size(); i++)
      REQ(cvs[i].input == d.input(i) && cvs[i].inner == s.argument(i) && *cvs[i].input->Type() == *cvs[i].inner->Type(),
          "a context variable of a delta node is inconsistent", r, &d);
    auto & op = static_cast<const DeltaOperation &>(d.GetOperation());
    REQ(*s.result(0)->Type() == *op.Type(), "the value of a delta node has another type than its operation", r, &d);
    REQ(*d.output().Type() == *op.ReferenceType(), "the output of a delta node has the wrong type", r, &d);
    return true;
  }
  bool root(Graph & g)
  {
    auto & r = g.GetRootRegion();
    REQ(r.IsRootRegion() && r.node() == nullptr, "the root region has a parent", r);
    std::set<std::string> imports, exports;
    for (auto a : r.Arguments())
    {
      auto i = dynamic_cast<GraphImport *>(a);
      REQ(i, "an argument of the root region is not an import", r);
      REQ(imports.insert(i->Name()).second, "two imports have the same name: " + i->Name(), r);
    }
    for (auto a : r.Results())
    {
      auto e = dynamic_cast<GraphExport *>(a);
      REQ(e, "a result of the root region is not an export", r);
      REQ(exports.insert(e->Name()).second, "two exports have the same name: " + e->Name(), r);
    }
    return region(r);
  }
};
}
std::string checkGraph(Graph & g, GraphStats & st)
{
  auto c = std::make_unique<Checker>(Checker{ st, {}, {} });
  c->root(g);
  return c->err;
}
}
