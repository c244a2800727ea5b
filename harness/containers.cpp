// Random histories of operations on the containers and algorithms of jlm/util, next to models made of the standard library.
#include "model.hpp"
#include <jlm/util/AnnotationMap.hpp>
#include <jlm/util/BijectiveMap.hpp>
#include <jlm/util/common.hpp>
#include <jlm/util/disjointset.hpp>
#include <jlm/util/Hash.hpp>
#include <jlm/util/HashSet.hpp>
#include <jlm/util/intrusive-hash.hpp>
#include <jlm/util/intrusive-list.hpp>
#include <jlm/util/Math.hpp>
#include <jlm/util/strfmt.hpp>
#include <jlm/util/TarjanScc.hpp>
#include <jlm/util/Worklist.hpp>
#include <list>
#include <memory>
#include <set>
namespace ju = jlm::util;
namespace vh
{
namespace
{
#define WANT(c, cond, what) do { if (!(cond)) (c).bad(std::string(what) + ": " #cond); } while (0)

// ------------------------------------------------------------------ hash set
void hashSets(Rng & r, Case & c)
{
  const int N = 4;
  std::vector<ju::HashSet<int>> s(N);
  std::vector<std::set<int>> m(N);
  int universe = r.chance(50) ? r.range(2, 8) : r.range(9, 200);
  auto check = [&](int k, const char * what)
  {
    std::multiset<int> got;
    for (auto & x : s[k].Items())
      got.insert(x);
    WANT(c, got.size() == m[k].size() && std::equal(got.begin(), got.end(), m[k].begin()), what);
    WANT(c, s[k].Size() == m[k].size() && s[k].IsEmpty() == m[k].empty(), what);
  };
  for (int n = r.range(20, 150); n > 0; n--)
  {
    int a = r.below(N), b = r.below(N), x = r.below(universe);
    c.stat("hashset.ops");
    switch (r.below(17))
    {
    case 0: case 1: case 2: case 3:
    {
      bool g = s[a].insert(x);
      WANT(c, g == m[a].insert(x).second, "insert");
      break;
    }
    case 4:
    {
      bool g = s[a].Remove(x);
      WANT(c, g == (m[a].erase(x) != 0), "remove");
      break;
    }
    case 5:
      WANT(c, s[a].Contains(x) == (m[a].count(x) != 0), "contains");
      break;
    case 6:
      WANT(c, s[a].IsSubsetOf(s[b]) == std::includes(m[b].begin(), m[b].end(), m[a].begin(), m[a].end()), "subset");
      break;
    case 7:
    {
      auto before = m[a].size();
      m[a].insert(m[b].begin(), m[b].end());
      bool g = s[a].UnionWith(s[b]);
      WANT(c, g == (m[a].size() != before), "union changes");
      break;
    }
    case 8:
      if (a != b)
      {
        auto old = m[a].size();
        auto oldB = m[b].size();
        m[a].insert(m[b].begin(), m[b].end());
        bool g = s[a].UnionWithAndClear(s[b]);
        m[b].clear();
        // whether the set that was grown is the target is a matter of sizes
        if (old >= oldB)
          WANT(c, g == (m[a].size() != old), "union and clear changes");
      }
      break;
    case 9: case 10:
    {
      std::set<int> i;
      for (int v : m[a])
        if (m[b].count(v))
          i.insert(v);
      if (r.chance(50) || a == b)
        s[a].IntersectWith(s[b]);
      else
      {
        s[a].IntersectWithAndClear(s[b]);
        m[b].clear();
      }
      m[a] = i;
      break;
    }
    case 11:
    {
      auto o = m[b];
      s[a].DifferenceWith(s[b]);
      for (int v : o)
        m[a].erase(v);
      break;
    }
    case 12:
    {
      int d = r.range(2, 5);
      auto f = [&](int v) { return v % d == 0; };
      size_t k = 0;
      for (auto it = m[a].begin(); it != m[a].end();)
        if (f(*it))
          it = m[a].erase(it), k++;
        else
          ++it;
      WANT(c, s[a].RemoveWhere(f) == k, "remove where");
      break;
    }
    case 13:
      if (r.chance(30))
      {
        s[a].Clear();
        m[a].clear();
      }
      else
      {
        WANT(c, (s[a] == s[b]) == (m[a] == m[b]), "equality");
        WANT(c, (s[a] != s[b]) == (m[a] != m[b]), "inequality");
      }
      break;
    case 14:
    {
      ju::HashSet<int> t(s[b]);
      if (r.chance(50))
        s[a] = t;
      else
        s[a] = std::move(t);
      m[a] = m[b];
      break;
    }
    case 15:
      s[a] = ju::HashSet<int>(m[b].begin(), m[b].end());
      m[a] = m[b];
      break;
    default:
      for (auto it = s[a].Items().begin(); it != s[a].Items().end();)
        if (*it == x)
        {
          it = s[a].Erase(it);
          m[a].erase(x);
        }
        else
          it++;
    }
    check(a, "contents");
    check(b, "contents of the other");
  }
  for (int k = 0; k < N; k++)
    c.seen(m[k].size());
}
// ------------------------------------------------------------------ bijective map
void bijective(Rng & r, Case & c)
{
  ju::BijectiveMap<int, std::string> t, t2;
  std::map<int, std::string> m, m2;
  int universe = r.range(3, 40);
  auto val = [&](int k) { return "v" + std::to_string(k); };
  auto hasValue = [&](const std::string & v)
  {
    for (auto & kv : m)
      if (kv.second == v)
        return true;
    return false;
  };
  for (int n = r.range(20, 150); n > 0; n--)
  {
    int k = r.below(universe);
    auto v = val(r.below(universe));
    c.stat("bijective.ops");
    switch (r.below(12))
    {
    case 0: case 1: case 2: case 3:
    {
      bool can = !m.count(k) && !hasValue(v);
      if (r.chance(60))
        WANT(c, t.Insert(k, v) == can, "insert");
      else
      {
        bool threw = false;
        try { t.InsertOrThrow(k, v); } catch (ju::Error &) { threw = true; }
        WANT(c, threw == !can, "insert or throw");
      }
      if (can)
        m[k] = v;
      break;
    }
    case 4:
      WANT(c, t.RemoveKey(k) == (m.erase(k) != 0), "remove key");
      break;
    case 5:
    {
      bool h = hasValue(v);
      for (auto it = m.begin(); it != m.end();)
        it = it->second == v ? m.erase(it) : std::next(it);
      WANT(c, t.RemoveValue(v) == h, "remove value");
      break;
    }
    case 6:
    {
      int d = r.range(2, 4);
      size_t e = 0;
      int how = r.below(3);
      auto f = [&](int key, const std::string & value) { return (how == 0 ? key : how == 1 ? atoi(value.c_str() + 1) : key + atoi(value.c_str() + 1)) % d == 0; };
      for (auto it = m.begin(); it != m.end();)
        if (f(it->first, it->second))
          it = m.erase(it), e++;
        else
          ++it;
      auto g = how == 0 ? t.RemoveKeysWhere([&](int key) { return f(key, ""); })
             : how == 1 ? t.RemoveValuesWhere([&](const std::string & value) { return f(0, value); })
                        : t.RemoveWhere(f);
      WANT(c, g == e, "remove where");
      break;
    }
    case 7:
    {
      std::vector<std::pair<int, std::string>> ps;
      size_t want = 0;
      for (int q = r.range(0, 5); q > 0; q--)
        ps.push_back({ r.below(universe), val(r.below(universe)) });
      for (auto & p : ps)
        if (!m.count(p.first) && !hasValue(p.second))
        {
          m.insert(p);
          want++;
        }
      std::list<std::pair<int, std::string>> l(ps.begin(), ps.end());
      WANT(c, t.InsertPairs(l.begin(), l.end()) == want, "insert pairs");
      break;
    }
    case 8:
      t2 = t;
      m2 = m;
      break;
    case 9:
      WANT(c, (t == t2) == (m == m2) && (t != t2) == (m != m2), "equality");
      if (r.chance(40))
      {
        std::swap(t, t2);
        std::swap(m, m2);
      }
      break;
    case 10:
      for (auto it = t.begin(); it != t.end();)
        if (it->first == k)
        {
          it = t.Erase(it);
          m.erase(k);
        }
        else
          ++it;
      break;
    default:
      if (r.chance(10))
      {
        t.Clear();
        m.clear();
      }
    }
    WANT(c, t.Size() == m.size(), "size");
    std::map<int, std::string> got;
    for (auto & kv : t)
      WANT(c, got.insert(kv).second, "iteration");
    WANT(c, got == m, "contents");
    for (int q = 0; q < universe; q++)
    {
      bool hk = m.count(q), hv = hasValue(val(q)), tk = false, tv = false;
      WANT(c, t.HasKey(q) == hk && t.HasValue(val(q)) == hv, "membership");
      try { WANT(c, t.LookupKey(q) == m[q], "lookup of key"); } catch (ju::Error &) { tk = true; m.size(); }
      if (!hk)
        m.erase(q);
      try { int key = t.LookupValue(val(q)); WANT(c, m.count(key) && m[key] == val(q), "lookup of value"); } catch (ju::Error &) { tv = true; }
      WANT(c, tk == !hk && tv == !hv, "lookups throw");
    }
  }
  c.seen(m.size());
}
// ------------------------------------------------------------------ disjoint sets
void disjoint(Rng & r, Case & c)
{
  ju::DisjointSet<int> s;
  std::map<int, int> cls;
  int universe = r.range(3, 60), fresh = 0;
  for (int n = r.range(20, 150); n > 0; n--)
  {
    int a = r.below(universe), b = r.below(universe);
    c.stat("disjoint.ops");
    switch (r.below(6))
    {
    case 0: case 1:
      s.insert(a);
      if (!cls.count(a))
        cls[a] = fresh++;
      break;
    case 2:
    {
      auto f = s.find_or_insert(a);
      if (!cls.count(a))
        cls[a] = fresh++;
      WANT(c, f->is_root(), "find gives a root");
      break;
    }
    case 3:
      if (r.chance(4))
      {
        s.clear();
        cls.clear();
      }
      else if (r.chance(10))
      {
        ju::DisjointSet<int> t;
        t = std::move(s);
        s = std::move(t);
      }
      break;
    default:
      if (cls.count(a) && cls.count(b))
      {
        auto root = s.merge(a, b);
        int from = cls[b], to = cls[a];
        for (auto & kv : cls)
          if (kv.second == from)
            kv.second = to;
        WANT(c, root->is_root() && root == s.find(a) && root == s.find(b), "merge gives the root");
      }
    }
    std::map<int, std::set<int>> sets;
    for (auto & kv : cls)
      sets[kv.second].insert(kv.first);
    WANT(c, s.nvalues() == cls.size() && s.nsets() == sets.size() && s.empty() == cls.empty(), "counts");
    size_t seen = 0;
    for (auto & set : s)
    {
      WANT(c, set.is_root(), "sets are roots");
      std::multiset<int> got;
      for (auto x : set)
        got.insert(x);
      auto & want = sets[cls[set.value()]];
      WANT(c, got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()), "members");
      seen++;
    }
    WANT(c, seen == sets.size(), "number of sets");
    for (auto & kv : cls)
    {
      auto f = s.find(kv.first);
      WANT(c, sets[kv.second].count(f->value()) && f->nmembers() == sets[kv.second].size(), "representative");
      auto g = s.find(*sets[kv.second].begin());
      WANT(c, f == g && *f == *g, "members of a set have the same representative");
    }
  }
  c.seen(cls.size());
}
// ------------------------------------------------------------------ work lists
template<class W> void worklist(Rng & r, Case & c, int kind)
{
  W w;
  std::vector<int> order; // waiting items, oldest first
  std::map<int, size_t> last;
  std::set<int> current; // two phase: items of the current phase
  size_t fire = 0;
  int universe = r.range(2, 20);
  for (int n = r.range(20, 200); n > 0; n--)
  {
    c.stat("worklist.ops");
    WANT(c, w.HasMoreWorkItems() == !order.empty(), "has more");
    if (r.chance(50) || order.empty())
    {
      int x = r.below(universe);
      w.PushWorkItem(x);
      if (std::find(order.begin(), order.end(), x) == order.end())
        order.push_back(x);
      continue;
    }
    int x = w.PopWorkItem();
    auto it = std::find(order.begin(), order.end(), x);
    WANT(c, it != order.end(), "popped an item that was not pushed or popped twice");
    auto older = [&](const std::vector<int> & v)
    {
      for (int y : v)
        if (last[y] < last[x])
          return false;
      return true;
    };
    if (kind == 0)
      WANT(c, x == order.back(), "last in, first out");
    else if (kind == 1)
      WANT(c, x == order.front(), "first in, first out");
    else if (kind == 2)
      WANT(c, older(order), "least recently fired first");
    else
    {
      if (current.empty())
        current.insert(order.begin(), order.end());
      WANT(c, current.count(x), "an item of the next phase was fired before the current phase ended");
      WANT(c, older(std::vector<int>(current.begin(), current.end())), "least recently fired first in a phase");
      current.erase(x);
    }
    order.erase(it);
    last[x] = ++fire;
  }
  c.seen(fire);
}
void workset(Rng & r, Case & c)
{
  ju::Workset<int> w;
  std::set<int> m;
  for (int n = 60; n > 0; n--)
  {
    int x = r.below(10);
    if (r.chance(50))
      w.PushWorkItem(x), m.insert(x);
    else
      w.RemoveWorkItem(x), m.erase(x);
    WANT(c, w.HasMoreWorkItems() == !m.empty(), "has more");
    for (int y = 0; y < 10; y++)
      WANT(c, w.HasWorkItem(y) == (m.count(y) != 0), "has item");
    c.stat("worklist.ops");
  }
}
// ------------------------------------------------------------------ strongly connected components
void scc(Rng & r, Case & c)
{
  int n = r.chance(10) ? 0 : r.range(1, r.chance(80) ? 12 : 40);
  std::vector<std::vector<uint32_t>> succ(n);
  std::vector<uint32_t> root(n);
  bool unify = r.chance(50);
  for (int i = 0; i < n; i++)
    root[i] = unify && i && r.chance(25) ? root[r.below(i)] : i;
  if (unify && r.chance(50)) // roots with larger indices than their aliases
    for (int i = 0; i < n; i++)
      if (r.chance(20) && root[i] == (uint32_t)i)
      {
        uint32_t k = r.below(n);
        if (root[k] == k && (int)k != i)
          for (int j = 0; j < n; j++)
            if (root[j] == (uint32_t)i)
              root[j] = k;
      }
  int edges = n ? r.below(n * r.range(1, 4) + 1) : 0;
  for (int e = 0; e < edges; e++)
  {
    int a = r.below(n);
    if (root[a] == (uint32_t)a)
      succ[a].push_back(r.below(n));
  }
  std::vector<std::vector<bool>> reach(n, std::vector<bool>(n));
  for (int i = 0; i < n; i++)
    if (root[i] == (uint32_t)i)
    {
      std::vector<uint32_t> st{ (uint32_t)i };
      reach[i][i] = true;
      while (!st.empty())
      {
        auto x = st.back();
        st.pop_back();
        for (auto y : succ[x])
          if (!reach[i][root[y]])
          {
            reach[i][root[y]] = true;
            st.push_back(root[y]);
          }
      }
    }
  std::vector<uint32_t> index, order;
  auto succs = [&](uint32_t k) -> const std::vector<uint32_t> & { return succ[k]; };
  uint32_t count = unify ? ju::FindStronglyConnectedComponents<uint32_t>(n, [&](uint32_t k) { return root[k]; }, succs, index, order)
                         : ju::FindStronglyConnectedComponents<uint32_t>(n, succs, index, order);
  std::set<uint32_t> used;
  size_t roots = 0;
  for (int i = 0; i < n; i++)
    if (root[i] == (uint32_t)i)
    {
      roots++;
      used.insert(index[i]);
      for (int j = 0; j < n; j++)
        if (root[j] == (uint32_t)j)
        {
          WANT(c, (index[i] == index[j]) == (reach[i][j] && reach[j][i]), "components");
          if (reach[i][j])
            WANT(c, index[i] >= index[j], "order of components");
          c.stat("scc.pairs");
        }
    }
  WANT(c, used.size() == count && (used.empty() || *used.rbegin() == count - 1), "number of components");
  WANT(c, order.size() == roots, "number of nodes in the topological order");
  std::set<uint32_t> seen;
  for (size_t k = 0; k < order.size(); k++)
  {
    WANT(c, root[order[k]] == order[k] && seen.insert(order[k]).second, "topological order has each root once");
    if (k)
      WANT(c, index[order[k - 1]] <= index[order[k]], "topological order");
  }
  c.seen(count);
  c.seen(edges);
}
// ------------------------------------------------------------------ intrusive containers
struct Item
{
  int key, id;
  static int alive;
  Item(int k, int i) : key(k), id(i) { alive++; }
  ~Item() { alive--; }
  ju::IntrusiveListAnchor<Item> list{};
  ju::IntrusiveHashAnchor<Item> hash{};
};
int Item::alive = 0;
using ListAcc = ju::IntrusiveListAccessor<Item, &Item::list>;
using HashAcc = ju::IntrusiveHashAccessor<int, Item, &Item::key, &Item::hash>;

template<class L> void checkList(Case & c, const L & l, const std::list<Item *> & m, const char * what)
{
  std::vector<const Item *> got, back;
  for (auto it = l.begin(); it != l.end(); ++it)
  {
    got.push_back(it.ptr());
    if (got.size() > m.size() + 1)
      break;
  }
  WANT(c, got.size() == m.size() && std::equal(got.begin(), got.end(), m.begin()), std::string(what) + " forward");
  auto it = l.end();
  for (size_t k = 0; k < m.size(); k++)
  {
    --it;
    back.push_back(it.ptr());
  }
  WANT(c, std::equal(back.begin(), back.end(), m.rbegin()), std::string(what) + " backward");
  WANT(c, l.size() == m.size() && l.empty() == m.empty(), std::string(what) + " size");
}
void intrusiveList(Rng & r, Case & c)
{
  std::vector<std::unique_ptr<Item>> items;
  ju::IntrusiveList<Item, ListAcc> l[2];
  std::list<Item *> m[2];
  auto fresh = [&] { items.push_back(std::make_unique<Item>(r.below(20), items.size())); return items.back().get(); };
  auto at = [&](int k, int i) { auto it = l[k].begin(); while (i--) ++it; return it; };
  for (int n = r.range(20, 100); n > 0; n--)
  {
    int a = r.below(2), b = 1 - a;
    c.stat("list.ops");
    size_t len = m[a].size(), lenB = m[b].size();
    switch (r.below(9))
    {
    case 0: { auto x = fresh(); l[a].push_back(x); m[a].push_back(x); break; }
    case 1: { auto x = fresh(); l[a].push_front(x); m[a].push_front(x); break; }
    case 2:
    {
      auto x = fresh();
      int p = r.below(len + 1);
      auto it = l[a].insert(at(a, p), x);
      WANT(c, it.ptr() == x, "insert gives the position");
      m[a].insert(std::next(m[a].begin(), p), x);
      break;
    }
    case 3:
      if (len)
      {
        int p = r.below(len);
        if (r.chance(50))
        {
          auto it = l[a].erase(at(a, p));
          auto mi = m[a].erase(std::next(m[a].begin(), p));
          WANT(c, it.ptr() == (mi == m[a].end() ? nullptr : *mi), "erase gives the next position");
        }
        else
        {
          l[a].erase(at(a, p).ptr());
          m[a].erase(std::next(m[a].begin(), p));
        }
      }
      break;
    case 4:
    {
      int p = r.below(len + 1), q = r.range(p, len);
      if (r.chance(30))
      {
        l[a].erase(at(a, p), at(a, q));
        m[a].erase(std::next(m[a].begin(), p), std::next(m[a].begin(), q));
      }
      break;
    }
    case 5:
      l[a].splice(at(a, r.below(1) + 0), l[b]);
      m[a].splice(m[a].begin(), m[b]);
      break;
    case 6:
      if (lenB)
      {
        int p = r.below(len + 1), q = r.below(lenB);
        l[a].splice(at(a, p), l[b], at(b, q));
        m[a].splice(std::next(m[a].begin(), p), m[b], std::next(m[b].begin(), q));
      }
      break;
    case 7:
    {
      int p = r.below(len + 1), q = r.below(lenB + 1), s = r.range(q, lenB);
      l[a].splice(at(a, p), l[b], at(b, q), at(b, s));
      m[a].splice(std::next(m[a].begin(), p), m[b], std::next(m[b].begin(), q), std::next(m[b].begin(), s));
      break;
    }
    default:
      if (r.chance(50))
      {
        l[0].swap(l[1]);
        m[0].swap(m[1]);
      }
      else if (r.chance(10))
      {
        l[a].clear();
        m[a].clear();
      }
      else
      {
        ju::IntrusiveList<Item, ListAcc> t(std::move(l[a]));
        WANT(c, l[a].empty(), "a list that was moved from");
        checkList(c, t, m[a], "moved list");
        l[a].swap(t);
      }
    }
    checkList(c, l[0], m[0], "first list");
    checkList(c, l[1], m[1], "second list");
  }
  c.seen(m[0].size());
}
void ownerList(Rng & r, Case & c)
{
  {
    ju::OwnerIntrusiveList<Item, ListAcc> l[2];
    std::list<Item *> m[2];
    int id = 0;
    auto at = [&](int k, int i) { auto it = l[k].begin(); while (i--) ++it; return it; };
    for (int n = r.range(20, 100); n > 0; n--)
    {
      int a = r.below(2), b = 1 - a;
      c.stat("list.ops");
      size_t len = m[a].size(), lenB = m[b].size();
      auto x = std::make_unique<Item>(r.below(20), id++);
      switch (r.below(8))
      {
      case 0: m[a].push_back(x.get()); l[a].push_back(std::move(x)); break;
      case 1: m[a].push_front(x.get()); l[a].push_front(std::move(x)); break;
      case 2:
      {
        int p = r.below(len + 1);
        m[a].insert(std::next(m[a].begin(), p), x.get());
        l[a].insert(at(a, p), std::move(x));
        break;
      }
      case 3:
        if (len)
        {
          int p = r.below(len);
          auto u = l[a].unlink(at(a, p));
          auto mi = std::next(m[a].begin(), p);
          WANT(c, u.get() == *mi, "unlink gives the element");
          m[a].erase(mi);
        }
        break;
      case 4:
        if (len)
        {
          int p = r.below(len), q = r.range(p, len);
          if (r.chance(60))
          {
            l[a].erase(at(a, p));
            m[a].erase(std::next(m[a].begin(), p));
          }
          else if (r.chance(50))
          {
            l[a].erase(at(a, p), at(a, q));
            m[a].erase(std::next(m[a].begin(), p), std::next(m[a].begin(), q));
          }
        }
        break;
      case 5:
        l[a].splice(l[a].end(), l[b]);
        m[a].splice(m[a].end(), m[b]);
        break;
      case 6:
        if (lenB)
        {
          int p = r.below(len + 1), q = r.below(lenB), s = r.range(q, lenB);
          if (r.chance(50))
          {
            l[a].splice(at(a, p), l[b], at(b, q));
            m[a].splice(std::next(m[a].begin(), p), m[b], std::next(m[b].begin(), q));
          }
          else
          {
            l[a].splice(at(a, p), l[b], at(b, q), at(b, s));
            m[a].splice(std::next(m[a].begin(), p), m[b], std::next(m[b].begin(), q), std::next(m[b].begin(), s));
          }
        }
        break;
      default:
        if (r.chance(10))
        {
          l[a].clear();
          m[a].clear();
        }
        else
        {
          l[0].swap(l[1]);
          m[0].swap(m[1]);
        }
      }
      x.reset();
      checkList(c, l[0], m[0], "first owning list");
      checkList(c, l[1], m[1], "second owning list");
      WANT(c, Item::alive == (int)(m[0].size() + m[1].size()), "elements alive are those in the lists");
    }
    c.seen(m[0].size());
  }
  WANT(c, Item::alive == 0, "elements are freed with their list");
}
void intrusiveHash(Rng & r, Case & c)
{
  std::vector<std::unique_ptr<Item>> items;
  ju::IntrusiveHash<int, Item, HashAcc> h;
  std::map<int, Item *> m;
  int universe = r.range(3, 100);
  for (int n = r.range(20, 150); n > 0; n--)
  {
    int k = r.below(universe) * (r.chance(50) ? 1 : 64);
    c.stat("hash.ops");
    switch (r.below(7))
    {
    case 0: case 1: case 2:
      if (!m.count(k))
      {
        items.push_back(std::make_unique<Item>(k, items.size()));
        m[k] = items.back().get();
        WANT(c, h.insert(items.back().get()).ptr() == items.back().get(), "insert");
      }
      break;
    case 3:
      if (r.chance(50))
        h.erase(k);
      else if (m.count(k))
      {
        if (r.chance(50))
          h.erase(m[k]);
        else
          h.erase(h.find(k));
      }
      m.erase(k);
      break;
    case 4:
      if (r.chance(10))
      {
        h.clear();
        m.clear();
      }
      else
      {
        ju::IntrusiveHash<int, Item, HashAcc> t(std::move(h));
        WANT(c, h.empty() && h.begin() == h.end(), "a table that was moved from");
        h.swap(t);
      }
      break;
    default:
    {
      auto it = h.find(k);
      WANT(c, (it == h.end()) == !m.count(k) && (it == h.end() || it.ptr() == m[k]), "find");
    }
    }
    WANT(c, h.size() == m.size() && h.empty() == m.empty(), "size");
    std::map<int, Item *> got;
    size_t steps = 0;
    for (auto it = h.begin(); it != h.end() && steps <= m.size(); ++it, ++steps)
      got[it->key] = it.ptr();
    WANT(c, got == m && steps == m.size(), "iteration");
  }
  c.seen(m.size());
}
// ------------------------------------------------------------------ the rest
template<class T> void mathFor(Rng & r, Case & c)
{
  for (int k = 0; k < 30; k++)
  {
    T v = r.chance(40) ? (T)r.below(300) : (T)(r.next() >> r.below(64));
    if (std::is_signed_v<T> && r.chance(30))
      v = -v;
    int fl = -1, bits = 0;
    for (size_t b = 0; b < sizeof(T) * 8; b++)
      if ((std::make_unsigned_t<T>)v >> b & 1)
      {
        bits = b + 1;
        if (v > 0)
          fl = b;
      }
    WANT(c, ju::log2Floor(v) == fl, "log2Floor of " + std::to_string(v));
    WANT(c, ju::BitsRequiredToRepresent(v) == bits, "BitsRequiredToRepresent of " + std::to_string(v));
    T half = std::numeric_limits<T>::max() / 2;
    if (v <= half)
    {
      T p = ju::RoundUpToPowerOf2(v);
      WANT(c, p >= 1 && (p & (p - 1)) == 0 && p >= v && (p == 1 || p / 2 < v), "RoundUpToPowerOf2 of " + std::to_string(v));
      T mul = (T)r.range(1, 100);
      if (v > std::numeric_limits<T>::min() / 2 || v >= 0)
      {
        T u = ju::RoundUpToMultipleOf(v, mul);
        WANT(c, u % mul == 0 && u >= v && (T)(u - v) < mul, "RoundUpToMultipleOf " + std::to_string(v) + ", " + std::to_string(mul));
      }
    }
    c.stat("math");
  }
}
void rest(Rng & r, Case & c)
{
  mathFor<int32_t>(r, c);
  mathFor<int64_t>(r, c);
  mathFor<uint32_t>(r, c);
  mathFor<uint64_t>(r, c);
  for (int k = 0; k < 30; k++)
  {
    uint64_t v = r.next();
    unsigned keep = r.range(1, 64);
    uint64_t mask = keep == 64 ? ~0ull : (1ull << keep) - 1, z = v & mask, s = z >> (keep - 1) & 1 ? z | ~mask : z;
    WANT(c, (uint64_t)ju::truncateAndZeroExtend(v, keep) == z, "truncateAndZeroExtend");
    WANT(c, (uint64_t)ju::truncateAndSignExtend(v, keep) == s, "truncateAndSignExtend");
  }
  // equal pairs hash alike
  for (int k = 0; k < 20; k++)
  {
    std::pair<int, std::string> a(r.below(3), std::string(1, 'a' + r.below(3))), b(r.below(3), std::string(1, 'a' + r.below(3)));
    ju::Hash<std::pair<int, std::string>> h;
    if (a == b)
      WANT(c, h(a) == h(b), "hashes of equal pairs");
  }
  // annotations
  ju::AnnotationMap am;
  std::map<const void *, std::vector<std::pair<std::string, uint64_t>>> m;
  int keys[5];
  static const std::string labels[] = { "one", "two", "three" };
  for (int k = 0; k < 30; k++)
  {
    auto key = &keys[r.below(4)];
    auto & l = labels[r.below(3)];
    uint64_t v = r.below(4);
    am.AddAnnotation(key, r.chance(50) ? ju::Annotation(l, v) : ju::Annotation(l, v));
    m[key].push_back({ l, v });
    for (auto & q : keys)
    {
      WANT(c, am.HasAnnotations(&q) == (m.count(&q) != 0), "has annotations");
      if (!m.count(&q))
        continue;
      auto & as = am.GetAnnotations(&q);
      WANT(c, as.size() == m[&q].size(), "number of annotations");
      for (size_t i = 0; i < as.size(); i++)
        WANT(c, as[i].Label() == m[&q][i].first && as[i].HasValueType<uint64_t>() && as[i].Value<uint64_t>() == m[&q][i].second, "annotations");
    }
    size_t n = 0;
    for (auto & as : am.Annotations())
      n += as.size();
    size_t want = 0;
    for (auto & kv : m)
      want += kv.second.size();
    WANT(c, n == want, "all annotations");
  }
}
}
int contMode(const Args & a)
{
  return modelMode(a, "cont", 30, [](Rng & r, Case & c)
  {
    for (int k = 0; k < 3; k++)
    {
      hashSets(r, c);
      bijective(r, c);
      disjoint(r, c);
      worklist<ju::LifoWorklist<int>>(r, c, 0);
      worklist<ju::FifoWorklist<int>>(r, c, 1);
      worklist<ju::LrfWorklist<int>>(r, c, 2);
      worklist<ju::TwoPhaseLrfWorklist<int>>(r, c, 3);
      workset(r, c);
      for (int q = 0; q < 4; q++)
        scc(r, c);
      Item::alive = 0;
      intrusiveList(r, c);
      Item::alive = 0;
      ownerList(r, c);
      intrusiveHash(r, c);
      rest(r, c);
    }
  });
}
}
