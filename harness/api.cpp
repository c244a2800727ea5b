// Random histories of changes to a graph through its interface. A snapshot of all edges before each change predicts the
// edges after it, the structural monitor checks the rest, observers keep their own picture of a region, and traversers
// run while the graph changes under them.
#include "model.hpp"
#include "monitor.hpp"
#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/TestType.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <set>
using namespace jlm::rvsdg;
namespace vh
{
namespace
{
std::shared_ptr<const Type> V()
{
  static auto t = TestType::createValueType();
  return t;
}
bool isV(const Output & o) { return *o.Type() == *V(); }
class VOp final : public SimpleOperation
{
public:
  int id;
  VOp(size_t a, size_t r, int i)
      : SimpleOperation(std::vector<std::shared_ptr<const Type>>(a, V()), std::vector<std::shared_ptr<const Type>>(r, V())),
        id(i)
  {}
  bool operator==(const Operation & o) const noexcept override
  {
    auto v = dynamic_cast<const VOp *>(&o);
    return v && v->id == id && v->narguments() == narguments() && v->nresults() == nresults();
  }
  std::string debug_string() const override { return "V" + std::to_string(id); }
  std::unique_ptr<Operation> copy() const override { return std::make_unique<VOp>(*this); }
};

using Edges = std::map<Input *, Output *>;
struct Picture
{
  Edges edges;
  std::set<Node *> nodes;
  std::set<Output *> outputs;
};
void take(Region & r, Picture & p)
{
  for (auto a : r.Arguments())
    p.outputs.insert(a);
  for (auto x : r.Results())
    p.edges[x] = x->origin();
  for (auto & n : r.Nodes())
  {
    p.nodes.insert(&n);
    for (auto & i : n.Inputs())
      p.edges[&i] = i.origin();
    for (auto & o : n.Outputs())
      p.outputs.insert(&o);
    if (auto s = dynamic_cast<StructuralNode *>(&n))
      for (auto & q : s->Subregions())
        take(q, p);
  }
}
bool dependsOn(Node * a, Node * b)
{
  std::set<Node *> seen;
  std::vector<Node *> st{ a };
  while (!st.empty())
  {
    auto n = st.back();
    st.pop_back();
    if (n == b)
      return true;
    if (!seen.insert(n).second)
      continue;
    for (auto & i : n->Inputs())
      if (auto m = TryGetOwnerNode<Node>(*i.origin()))
        st.push_back(m);
  }
  return false;
}

// keeps a picture of its region from what it is told
class Watcher final : public RegionObserver
{
public:
  Region & region;
  Case & c;
  std::set<Node *> nodes;
  Edges edges;
  uint64_t events = 0;
  Watcher(Region & r, Case & k)
      : RegionObserver(r), region(r), c(k)
  {
    for (auto & n : r.Nodes())
      add(&n);
    for (auto x : r.Results())
      edges[x] = x->origin();
  }
  void add(Node * n)
  {
    if (!nodes.insert(n).second)
      c.bad("an observer is told twice of a new node");
    for (auto & i : n->Inputs())
      edges[&i] = i.origin();
  }
  void onNodeCreate(Node * n) override { events++; add(n); }
  void onNodeDestroy(Node * n) override
  {
    events++;
    if (!nodes.erase(n))
      c.bad("an observer is told of the end of an unknown node");
    for (auto & i : n->Inputs())
      if (!edges.erase(&i))
        c.bad("an observer did not know an input of a node that ends");
  }
  void onInputCreate(Input * i) override
  {
    events++;
    if (!edges.insert({ i, i->origin() }).second)
      c.bad("an observer is told twice of a new input");
  }
  void onInputChange(Input * i, Output * o, Output * n) override
  {
    events++;
    auto it = edges.find(i);
    if (it == edges.end() || it->second != o || i->origin() != n)
      c.bad("an observer is told of a wrong change of an origin");
    else
      it->second = n;
  }
  void onInputDestroy(Input * i) override
  {
    events++;
    if (!edges.erase(i))
      c.bad("an observer is told of the end of an unknown input");
  }
  void check(const std::string & last)
  {
    std::set<Node *> ns;
    Edges es;
    for (auto & n : region.Nodes())
    {
      ns.insert(&n);
      for (auto & i : n.Inputs())
        es[&i] = i.origin();
    }
    for (auto x : region.Results())
      es[x] = x->origin();
    if (ns != nodes)
      c.bad("after " + last + ": an observer was not told of all changes of the nodes of its region");
    if (es != edges)
      c.bad("after " + last + ": an observer was not told of all changes of the edges of its region");
  }
};

struct History
{
  Rng & r;
  Case & c;
  std::shared_ptr<Graph> g = std::make_shared<Graph>();
  std::string last;
  std::vector<std::unique_ptr<Watcher>> watchers;
  int names = 0;
  // traversal under way
  Region * travRegion = nullptr;

  void regions(Region & q, std::vector<Region *> & v)
  {
    v.push_back(&q);
    for (auto & n : q.Nodes())
      if (auto s = dynamic_cast<StructuralNode *>(&n))
        for (auto & t : s->Subregions())
          regions(t, v);
  }
  std::vector<Region *> allRegions()
  {
    std::vector<Region *> v;
    regions(g->GetRootRegion(), v);
    return v;
  }
  std::vector<Output *> values(Region & q, Node * before = nullptr)
  {
    std::vector<Output *> v;
    for (auto a : q.Arguments())
      if (isV(*a))
        v.push_back(a);
    for (auto & n : q.Nodes())
      if (!before || !dependsOn(&n, before))
        for (auto & o : n.Outputs())
          if (isV(o))
            v.push_back(&o);
    return v;
  }
  bool inDelta(Region & q) { return q.node() && dynamic_cast<DeltaNode *>(q.node()); }
  Output & some(Region & q, Node * before = nullptr)
  {
    auto v = values(q, before);
    if (!v.empty() && r.chance(90))
      return *r.pick(v);
    return *SimpleNode::Create(q, std::make_unique<VOp>(0, 1, r.below(3)), {}).output(0);
  }
  Node & simple(Region & q)
  {
    int a = r.below(4);
    std::vector<Output *> ops;
    for (int i = 0; i < a; i++)
      ops.push_back(&some(q));
    return SimpleNode::Create(q, std::make_unique<VOp>(a, r.range(0, 3), r.below(3)), ops);
  }
  void fill(Region & q, int n)
  {
    for (int i = 0; i < n; i++)
      simple(q);
  }
  Region & outer() // a region for nodes of global scope
  {
    std::vector<Region *> v;
    for (auto q : allRegions())
      if (!q->node() || dynamic_cast<PhiNode *>(q->node()))
        v.push_back(q);
    return *r.pick(v);
  }
  // ---- what is to be expected after a change
  Picture before;
  Edges changed;             // edges with another origin
  std::set<Input *> gone;    // edges that have to be gone
  bool prediction = true;
  std::set<Node *> goneNodes;
  void begin(const std::string & what)
  {
    last = what;
    before = {};
    take(g->GetRootRegion(), before);
    changed.clear();
    gone.clear();
    goneNodes.clear();
    prediction = true;
  }
  void goesAway(Node & n)
  {
    goneNodes.insert(&n);
    for (auto & i : n.Inputs())
      gone.insert(&i);
    if (auto s = dynamic_cast<StructuralNode *>(&n))
      for (auto & q : s->Subregions())
      {
        for (auto x : q.Results())
          gone.insert(x);
        for (auto & m : q.Nodes())
          goesAway(m);
      }
  }
  void end()
  {
    GraphStats st;
    auto e = checkGraph(*g, st);
    if (!e.empty())
      c.bad("after " + last + ": " + e);
    Picture after;
    take(g->GetRootRegion(), after);
    for (auto & kv : before.edges)
    {
      auto it = after.edges.find(kv.first);
      bool here = it != after.edges.end();
      if (gone.count(kv.first))
      {
        if (here && before.nodes == after.nodes) // the memory may have been used again for a new input otherwise
          c.bad("after " + last + ": an edge that should be gone is still there");
        continue;
      }
      if (!here)
        c.bad("after " + last + ": an edge disappeared");
      auto ch = changed.find(kv.first);
      auto want = ch == changed.end() ? kv.second : ch->second;
      if (it->second != want)
        c.bad("after " + last + (ch == changed.end() ? ": an unrelated edge changed" : ": an edge did not change as asked for"));
    }
    for (auto n : before.nodes)
      if (!after.nodes.count(n) && !goneNodes.count(n))
        c.bad("after " + last + ": a node disappeared");
    for (auto n : goneNodes)
      if (after.nodes.count(n) && after.nodes.size() <= before.nodes.size() - goneNodes.size())
        c.bad("after " + last + ": a node that should be gone is still there");
    for (auto & w : watchers)
      w->check(last);
    c.stat("changes");
    c.stat("change." + last.substr(0, last.find(' ')));
    c.stat("edges", after.edges.size());
    c.seen(after.edges.size() * 31 + after.nodes.size());
  }
  void dropWatchers(Node & n)
  {
    std::vector<Region *> dead;
    if (auto s = dynamic_cast<StructuralNode *>(&n))
      for (auto & q : s->Subregions())
        regions(q, dead);
    for (size_t i = 0; i < watchers.size();)
      if (std::find(dead.begin(), dead.end(), &watchers[i]->region) != dead.end())
        watchers.erase(watchers.begin() + i);
      else
        i++;
  }
  bool allowed(Node & n) // may this node be removed while the traversal runs?
  {
    for (auto q = travRegion; q && q->node(); q = q->node()->region())
      if (q->node() == &n)
        return false;
    return true;
  }
  void prunePrediction(Region & q, bool recursive)
  {
    // nodes whose outputs nobody that stays uses
    std::set<Node *> dead;
    for (bool again = true; again;)
    {
      again = false;
      for (auto & n : q.Nodes())
      {
        if (dead.count(&n))
          continue;
        bool live = false;
        for (auto & o : n.Outputs())
          for (auto & u : o.Users())
          {
            auto m = TryGetOwnerNode<Node>(u);
            if (!m || !dead.count(m))
              live = true;
          }
        if (!live)
        {
          dead.insert(&n);
          again = true;
        }
      }
    }
    for (auto & n : q.Nodes())
      if (dead.count(&n))
        goesAway(n);
      else if (recursive)
        if (auto s = dynamic_cast<StructuralNode *>(&n))
          for (auto & t : s->Subregions())
            prunePrediction(t, true);
  }
  // ---- one change; only: the region it has to be in
  void step(Region * only)
  {
    auto rs = allRegions();
    Region & q = only ? *only : *r.pick(rs);
    std::vector<Node *> nodes;
    for (auto & n : q.Nodes())
      nodes.push_back(&n);
    auto anyNode = [&](auto tag) -> decltype(tag)
    {
      std::vector<decltype(tag)> v;
      for (auto n : nodes)
        if (auto x = dynamic_cast<decltype(tag)>(n))
          v.push_back(x);
      return v.empty() ? nullptr : r.pick(v);
    };
    bool delta = inDelta(q);
    size_t depth = 0;
    for (auto t = &q; t->node(); t = t->node()->region())
      depth++;
    switch (r.below(24))
    {
    case 0: case 1: case 2:
      begin("create");
      simple(q);
      end();
      break;
    case 3: case 4:
    {
      if (depth > 4 || delta)
        return;
      begin("gamma");
      size_t n = r.range(2, 3);
      auto p = &ControlConstantOperation::create(q, n, r.below(n));
      auto ga = GammaNode::create(p, n);
      for (int k = r.below(4); k > 0; k--)
        ga->AddEntryVar(&some(q, ga));
      for (size_t k = 0; k < n; k++)
        fill(*ga->subregion(k), r.below(3));
      for (int k = r.below(3); k > 0; k--)
      {
        std::vector<Output *> v;
        for (size_t s = 0; s < n; s++)
          v.push_back(&some(*ga->subregion(s)));
        ga->AddExitVar(v);
      }
      end();
      break;
    }
    case 5: case 6:
    {
      if (depth > 4 || delta)
        return;
      begin("theta");
      auto t = ThetaNode::create(&q);
      int n = r.below(4);
      for (int k = 0; k < n; k++)
        t->AddLoopVar(&some(q, t));
      fill(*t->subregion(), r.below(3));
      for (auto & l : t->GetLoopVars())
        if (r.chance(70))
          l.post->divert_to(&some(*t->subregion()));
      end();
      break;
    }
    case 7:
    {
      if (only && !(!q.node() || dynamic_cast<PhiNode *>(q.node())))
        return;
      auto & o = only ? q : outer();
      begin("lambda");
      size_t na = r.below(3), nr = r.below(3);
      auto l = LambdaNode::Create(o, std::make_unique<LambdaOperation>(FunctionType::Create(std::vector<std::shared_ptr<const Type>>(na, V()), std::vector<std::shared_ptr<const Type>>(nr, V()))));
      for (int k = r.below(3); k > 0; k--)
        l->AddContextVar(some(o, l));
      fill(*l->subregion(), r.below(4));
      std::vector<Output *> v;
      for (size_t k = 0; k < nr; k++)
        v.push_back(&some(*l->subregion()));
      l->finalize(v);
      end();
      break;
    }
    case 8:
    {
      if (only && !(!q.node() || dynamic_cast<PhiNode *>(q.node())))
        return;
      auto & o = only ? q : outer();
      begin("delta");
      auto d = DeltaNode::Create(&o, std::make_unique<DeltaOperation>(V(), r.chance(50), V()));
      for (int k = r.below(3); k > 0; k--)
        d->AddContextVar(some(o, d));
      fill(*d->subregion(), r.below(3));
      d->finalize(&some(*d->subregion()));
      end();
      break;
    }
    case 9:
    {
      if (depth > 1 || (only && !(!q.node() || dynamic_cast<PhiNode *>(q.node()))))
        return;
      auto & o = only ? q : outer();
      begin("phi");
      PhiBuilder pb;
      pb.begin(&o);
      std::vector<PhiNode::FixVar> fv;
      auto self = pb.subregion()->node();
      for (int k = r.below(3); k > 0; k--)
        pb.AddContextVar(some(o, self));
      for (int k = r.below(3); k > 0; k--)
        fv.push_back(pb.AddFixVar(V()));
      for (auto & f : fv)
      {
        auto d = DeltaNode::Create(pb.subregion(), std::make_unique<DeltaOperation>(V(), false, V()));
        for (int k = r.below(3); k > 0; k--)
          d->AddContextVar(some(*pb.subregion(), d));
        d->finalize(&some(*d->subregion()));
        f.result->divert_to(&d->output());
      }
      pb.end();
      end();
      break;
    }
    case 10: case 11: case 12: // another origin for an input
    {
      std::vector<Input *> v;
      for (auto n : nodes)
        for (auto & i : n->Inputs())
          if (isV(*i.origin()))
            v.push_back(&i);
      if (!dynamic_cast<PhiNode *>(q.node())) // results of a phi have to come from nodes of certain kinds
        for (auto x : q.Results())
          if (isV(*x->origin()))
            v.push_back(x);
      if (v.empty())
        return;
      auto i = r.pick(v);
      begin("divert");
      auto o = &some(q, TryGetOwnerNode<Node>(*i));
      i->divert_to(o);
      changed[i] = o;
      end();
      break;
    }
    case 13: case 14:
    {
      auto v = values(q);
      if (v.empty())
        return;
      auto o = r.pick(v);
      // the new origin must not depend on a user, and results of a phi have to come from nodes of certain kinds
      if (dynamic_cast<PhiNode *>(q.node()))
        for (auto & u : o->Users())
          if (std::holds_alternative<Region *>(u.GetOwner()))
            return;
      std::vector<Output *> ok;
      for (auto x : v)
      {
        bool good = true;
        for (auto & u : o->Users())
          if (auto m = TryGetOwnerNode<Node>(u))
            if (auto s = TryGetOwnerNode<Node>(*x))
              if (dependsOn(s, m))
                good = false;
        if (good)
          ok.push_back(x);
      }
      if (ok.empty())
        return;
      auto x = r.pick(ok);
      if (r.chance(50))
      {
        begin("divert_users");
        for (auto & u : o->Users())
          changed[&u] = x;
        o->divert_users(x);
      }
      else
      {
        begin("divertUsersWhere");
        std::set<Input *> sel;
        for (auto & u : o->Users())
          if (r.chance(50))
            sel.insert(&u);
        for (auto u : sel)
          changed[u] = x;
        auto n = o->divertUsersWhere(*x, [&](const Input & u) { return sel.count(const_cast<Input *>(&u)) != 0; });
        if (n != (x == o ? 0 : sel.size()))
          c.bad("divertUsersWhere gives a wrong number");
      }
      end();
      break;
    }
    case 15: case 16:
    {
      std::vector<Node *> v;
      for (auto n : nodes)
        if (n->IsDead() && allowed(*n))
          v.push_back(n);
      if (v.empty())
        return;
      auto n = r.pick(v);
      dropWatchers(*n);
      begin("remove");
      goesAway(*n);
      remove(n);
      end();
      break;
    }
    case 17:
    {
      if (only && r.chance(70))
        return;
      bool rec = r.chance(50);
      begin(rec ? "prune recursively" : "prune");
      prunePrediction(q, rec);
      for (auto n : goneNodes)
        if (!allowed(*n))
          return;
      for (auto n : std::vector<Node *>(goneNodes.begin(), goneNodes.end()))
        dropWatchers(*n);
      q.prune(rec);
      end();
      break;
    }
    case 18: // imports and exports
    {
      if (only && only != &g->GetRootRegion())
        return;
      auto & root = g->GetRootRegion();
      if (r.chance(40))
      {
        begin("import");
        GraphImport::Create(*g, V(), "i" + std::to_string(names++));
      }
      else if (r.chance(50))
      {
        auto & o = some(root);
        begin("export");
        GraphExport::Create(o, "e" + std::to_string(names++));
      }
      else if (r.chance(60))
      {
        begin("RemoveResults");
        jlm::util::HashSet<size_t> ix;
        for (auto x : root.Results())
          if (r.chance(30))
          {
            ix.insert(x->index());
            gone.insert(x);
          }
        auto n = ix.Size();
        ix.insert(1000);
        if (root.RemoveResults(ix) != n)
          c.bad("RemoveResults gives a wrong number");
      }
      else
      {
        begin("PruneArguments");
        size_t n = 0;
        for (auto a : root.Arguments())
          n += a->nusers() == 0;
        if (root.PruneArguments() != n)
          c.bad("PruneArguments gives a wrong number");
        for (auto a : root.Arguments())
          if (a->nusers() == 0)
            c.bad("PruneArguments leaves a dead argument");
      }
      end();
      break;
    }
    case 19: // more variables
    {
      begin("addVariable");
      if (auto x = anyNode((GammaNode *)nullptr); x && r.chance(50))
      {
        if (r.chance(50))
        {
          auto & o = some(q, x);
          auto e = x->AddEntryVar(&o);
          if (e.input->origin() != &o || e.branchArgument.size() != x->nsubregions() || &x->mapBranchArgumentToInput(*e.branchArgument[0]) != e.input)
            c.bad("AddEntryVar");
        }
        else
        {
          std::vector<Output *> v;
          for (auto & s : x->Subregions())
            v.push_back(&some(s));
          auto e = x->AddExitVar(v);
          for (size_t k = 0; k < v.size(); k++)
            if (e.branchResult[k]->origin() != v[k] || &x->mapBranchResultToOutput(*e.branchResult[k]) != e.output)
              c.bad("AddExitVar");
        }
      }
      else if (auto t = anyNode((ThetaNode *)nullptr); t && r.chance(60))
      {
        auto & o = some(q, t);
        auto l = t->AddLoopVar(&o);
        if (l.input->origin() != &o || l.post->origin() != l.pre || t->MapPreLoopVar(*l.pre).output != l.output)
          c.bad("AddLoopVar");
      }
      else if (auto l = anyNode((LambdaNode *)nullptr); l && r.chance(60))
      {
        auto & o = some(q, l);
        auto k = l->AddContextVar(o);
        if (k.input->origin() != &o || l->MapInputContextVar(*k.input).inner != k.inner)
          c.bad("AddContextVar of a lambda");
      }
      else if (auto d = anyNode((DeltaNode *)nullptr); d && r.chance(60))
      {
        auto & o = some(q, d);
        auto k = d->AddContextVar(o);
        if (k.input->origin() != &o || d->MapInputContextVar(*k.input).inner != k.inner)
          c.bad("AddContextVar of a delta");
      }
      else if (auto p = anyNode((PhiNode *)nullptr))
      {
        auto & o = some(q, p);
        auto k = p->AddContextVar(o);
        if (k.input->origin() != &o || p->MapInputContextVar(*k.input).inner != k.inner)
          c.bad("AddContextVar of a phi");
      }
      end();
      break;
    }
    case 20: case 21: // fewer variables
    {
      begin("removeVariables");
      if (auto x = anyNode((GammaNode *)nullptr); x && r.chance(50))
      {
        if (r.chance(50))
        {
          std::vector<GammaNode::EntryVar> v;
          for (auto & e : x->GetEntryVars())
          {
            bool dead = true;
            for (auto a : e.branchArgument)
              dead &= a->IsDead();
            if (dead && r.chance(70))
            {
              v.push_back(e);
              gone.insert(e.input);
            }
          }
          size_t n = x->GetEntryVars().size();
          auto k = v.size();
          x->RemoveEntryVars(v);
          if (x->GetEntryVars().size() != n - k)
            c.bad("RemoveEntryVars");
        }
        else
        {
          std::vector<Output *> v;
          for (auto & e : x->GetExitVars())
            if (e.output->IsDead() && r.chance(70))
            {
              v.push_back(e.output);
              for (auto b : e.branchResult)
                gone.insert(b);
            }
          size_t n = x->GetExitVars().size();
          auto k = v.size();
          x->RemoveExitVars(v);
          if (x->GetExitVars().size() != n - k)
            c.bad("RemoveExitVars");
        }
      }
      else if (auto t = anyNode((ThetaNode *)nullptr); t && r.chance(60))
      {
        std::vector<ThetaNode::LoopVar> v;
        for (auto & l : t->GetLoopVars())
          if (l.output->IsDead() && l.post->origin() == l.pre && l.pre->nusers() == 1)
          {
            v.push_back(l);
            gone.insert(l.input);
            gone.insert(l.post);
          }
        t->RemoveLoopVars(v);
      }
      else if (auto l = anyNode((LambdaNode *)nullptr); l && r.chance(60))
      {
        size_t n = 0;
        for (auto & k : l->GetContextVars())
          if (k.inner->IsDead())
          {
            gone.insert(k.input);
            n++;
          }
        if (l->PruneLambdaInputs() != n)
          c.bad("PruneLambdaInputs gives a wrong number");
      }
      else if (auto d = anyNode((DeltaNode *)nullptr); d && r.chance(60))
      {
        size_t n = 0;
        for (auto & k : d->GetContextVars())
          if (k.inner->IsDead())
          {
            gone.insert(k.input);
            n++;
          }
        if (d->PruneDeltaInputs() != n)
          c.bad("PruneDeltaInputs gives a wrong number");
      }
      else if (auto p = anyNode((PhiNode *)nullptr))
      {
        std::vector<PhiNode::ContextVar> v;
        for (auto & k : p->GetContextVars())
          if (k.inner->IsDead())
          {
            v.push_back(k);
            gone.insert(k.input);
          }
        p->RemoveContextVars(v);
      }
      end();
      break;
    }
    case 22: // a copy of a node
    {
      if (nodes.empty() || before.nodes.size() > 150)
        return;
      auto n = r.pick(nodes);
      begin("copyNode");
      SubstitutionMap m;
      std::vector<Output *> ops;
      for (auto & i : n->Inputs())
        ops.push_back(i.origin());
      Node * k = nullptr;
      if (r.chance(50))
        k = n->copy(&q, ops);
      else
      {
        for (auto & i : n->Inputs())
          m.insert(i.origin(), i.origin());
        k = n->copy(&q, m);
        for (size_t x = 0; x < n->noutputs(); x++)
          if (m.contains(*n->output(x)) && &m.lookup(*n->output(x)) != k->output(x))
            c.bad("the substitution map of a copied node is wrong");
      }
      if (!k || k == n || k->region() != &q || k->ninputs() != n->ninputs() || k->noutputs() != n->noutputs())
        c.bad("the copy of a node has another shape");
      for (size_t x = 0; x < ops.size(); x++)
        if (k->input(x)->origin() != ops[x])
          c.bad("the copy of a node has other operands");
      end();
      break;
    }
    default:
      if (watchers.size() < 6)
        watchers.push_back(std::make_unique<Watcher>(q, c));
      else
        watchers.erase(watchers.begin() + r.below(watchers.size()));
    }
  }
  // ---- traversal while the region changes
  template<class T> void traverse(bool down)
  {
    auto rs = allRegions();
    auto & q = *r.pick(rs);
    travRegion = &q;
    std::set<Node *> orig, visited;
    std::map<Node *, size_t> ids;
    size_t cutoff = q.getNextNodeId();
    for (auto & n : q.Nodes())
      orig.insert(&n);
    T t(&q);
    Picture p;
    int changes = 0;
    while (auto n = t.next())
    {
      c.stat("visits");
      if (n->region() != &q)
        c.bad("a traverser visits a node of another region");
      if (n->GetNodeId() >= cutoff)
        c.bad("a traverser visits a node that was created while it ran");
      if (!visited.insert(n).second)
        c.bad("a traverser visits a node twice");
      auto isOld = [&](Node * m) { return m && m->GetNodeId() < cutoff; };
      if (down)
      {
        for (auto & i : n->Inputs())
          if (auto m = TryGetOwnerNode<Node>(*i.origin()); isOld(m) && !visited.count(m))
            c.bad("a top-down traverser visits a node before its operand, last change: " + last);
      }
      else
      {
        for (auto & o : n->Outputs())
          for (auto & u : o.Users())
            if (auto m = TryGetOwnerNode<Node>(u); isOld(m) && !visited.count(m))
              c.bad("a bottom-up traverser visits a node before its user, last change: " + last);
      }
      for (int k = r.below(4); k > 0 && changes < 40; k--)
      {
        auto old = visited;
        step(r.chance(85) ? &q : nullptr);
        changes++;
        // forget removed nodes: their memory may be used again
        std::set<Node *> now;
        for (auto & m : q.Nodes())
          if (m.GetNodeId() < cutoff)
            now.insert(&m);
        for (auto it = visited.begin(); it != visited.end();)
          it = now.count(*it) ? std::next(it) : visited.erase(it);
      }
    }
    for (auto & n : q.Nodes())
      if (n.GetNodeId() < cutoff && !visited.count(&n))
        c.bad(std::string("a ") + (down ? "top-down" : "bottom-up") + " traverser misses a node");
    travRegion = nullptr;
    c.stat("traversals");
  }
  void run()
  {
    for (int k = r.below(4); k > 0; k--)
      GraphImport::Create(*g, V(), "i" + std::to_string(names++));
    fill(g->GetRootRegion(), r.range(1, 4));
    int steps = r.range(20, 80);
    for (int k = 0; k < steps; k++)
    {
      if (r.chance(12))
      {
        if (r.chance(50))
          traverse<TopDownTraverser>(true);
        else
          traverse<BottomUpTraverser>(false);
      }
      else
        step(nullptr);
      Picture p;
      take(g->GetRootRegion(), p);
      if (p.nodes.size() > 200)
        break;
    }
    watchers.clear();
  }
};
}
int apiMode(const Args & a)
{
  return modelMode(a, "api", 60, [](Rng & r, Case & c)
  {
    History h{ r, c };
    h.run();
  });
}
}
