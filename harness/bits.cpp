// Bit strings and the folding and normalization of integer operations, against LLVM's APInt.
#include "model.hpp"
#include "monitor.hpp"
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/Trace.hpp>
#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/NodeNormalization.hpp>
#include <jlm/rvsdg/binary.hpp>
#include <jlm/rvsdg/unary.hpp>
#include <jlm/rvsdg/view.hpp>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/StringExtras.h>
#include <unordered_map>
using llvm::APInt;
using namespace jlm::rvsdg;
namespace jl = jlm::llvm;
using BV = BitValueRepresentation;
namespace vh
{
namespace
{
std::string bitsOf(const APInt & v)
{
  std::string s;
  for (unsigned i = 0; i < v.getBitWidth(); i++)
    s += v[i] ? '1' : '0';
  return s;
}
APInt apOf(const std::string & s)
{
  APInt v(s.size(), 0);
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '1')
      v.setBit(i);
  return v;
}
APInt randomValue(Rng & r, unsigned w)
{
  switch (r.below(8))
  {
  case 0: return APInt(w, 0);
  case 1: return APInt::getAllOnes(w);
  case 2: return APInt::getSignedMinValue(w);
  case 3: return APInt::getSignedMaxValue(w);
  case 4: return APInt(64, r.below(w + 4)).zextOrTrunc(w);
  case 5: return -APInt(64, r.below(40)).zextOrTrunc(w);
  default:
  {
    APInt v(w, 0);
    for (unsigned i = 0; i < w; i++)
      if (r.chance(50))
        v.setBit(i);
    return v;
  }
  }
}
unsigned randomWidth(Rng & r) { return r.chance(50) ? r.range(1, 8) : r.chance(60) ? r.range(9, 64) : r.chance(50) ? 64 : r.range(65, 140); }

struct Op
{
  const char * name;
  std::function<BV(const BV &, const BV &)> got;
  std::function<APInt(const APInt &, const APInt &)> want;
  bool div = false, masks = true; // masks: unknown bits are handled soundly
};
const std::vector<Op> & binaryOps()
{
  auto amount = [](const APInt & a, const APInt & b) { return b.getLimitedValue(a.getBitWidth()); };
  static const std::vector<Op> ops = {
    { "add", [](auto & a, auto & b) { return a.add(b); }, [](auto & a, auto & b) { return a + b; } },
    { "sub", [](auto & a, auto & b) { return a.sub(b); }, [](auto & a, auto & b) { return a - b; } },
    { "mul", [](auto & a, auto & b) { return a.mul(b); }, [](auto & a, auto & b) { return a * b; } },
    { "and", [](auto & a, auto & b) { return a.land(b); }, [](auto & a, auto & b) { return a & b; } },
    { "or", [](auto & a, auto & b) { return a.lor(b); }, [](auto & a, auto & b) { return a | b; } },
    { "xor", [](auto & a, auto & b) { return a.lxor(b); }, [](auto & a, auto & b) { return a ^ b; } },
    { "udiv", [](auto & a, auto & b) { return a.udiv(b); }, [](auto & a, auto & b) { return a.udiv(b); }, true },
    { "umod", [](auto & a, auto & b) { return a.umod(b); }, [](auto & a, auto & b) { return a.urem(b); }, true },
    { "sdiv", [](auto & a, auto & b) { return a.sdiv(b); }, [](auto & a, auto & b) { return a.sdiv(b); }, true },
    { "smod", [](auto & a, auto & b) { return a.smod(b); }, [](auto & a, auto & b) { return a.srem(b); }, true },
    { "umulh", [](auto & a, auto & b) { return a.umulh(b); },
      [](auto & a, auto & b) { unsigned w = a.getBitWidth(); return (a.zext(2 * w) * b.zext(2 * w)).lshr(w).trunc(w); } },
    { "smulh", [](auto & a, auto & b) { return a.smulh(b); },
      [](auto & a, auto & b) { unsigned w = a.getBitWidth(); return (a.sext(2 * w) * b.sext(2 * w)).lshr(w).trunc(w); } },
    { "shl", [](auto & a, auto & b) { return a.shl(b.to_uint()); }, [=](auto & a, auto & b) { return a.shl(amount(a, b)); }, false, false },
    { "shr", [](auto & a, auto & b) { return a.shr(b.to_uint()); }, [=](auto & a, auto & b) { return a.lshr(amount(a, b)); }, false, false },
    { "ashr", [](auto & a, auto & b) { return a.ashr(b.to_uint()); }, [=](auto & a, auto & b) { return a.ashr(amount(a, b)); }, false, false },
  };
  return ops;
}
struct Cmp
{
  const char * name;
  std::function<char(const BV &, const BV &)> got;
  std::function<bool(const APInt &, const APInt &)> want;
};
const std::vector<Cmp> & compareOps()
{
  static const std::vector<Cmp> ops = {
    { "eq", [](auto & a, auto & b) { return a.eq(b); }, [](auto & a, auto & b) { return a == b; } },
    { "ne", [](auto & a, auto & b) { return a.ne(b); }, [](auto & a, auto & b) { return a != b; } },
    { "ult", [](auto & a, auto & b) { return a.ult(b); }, [](auto & a, auto & b) { return a.ult(b); } },
    { "ule", [](auto & a, auto & b) { return a.ule(b); }, [](auto & a, auto & b) { return a.ule(b); } },
    { "ugt", [](auto & a, auto & b) { return a.ugt(b); }, [](auto & a, auto & b) { return a.ugt(b); } },
    { "uge", [](auto & a, auto & b) { return a.uge(b); }, [](auto & a, auto & b) { return a.uge(b); } },
    { "slt", [](auto & a, auto & b) { return a.slt(b); }, [](auto & a, auto & b) { return a.slt(b); } },
    { "sle", [](auto & a, auto & b) { return a.sle(b); }, [](auto & a, auto & b) { return a.sle(b); } },
    { "sgt", [](auto & a, auto & b) { return a.sgt(b); }, [](auto & a, auto & b) { return a.sgt(b); } },
    { "sge", [](auto & a, auto & b) { return a.sge(b); }, [](auto & a, auto & b) { return a.sge(b); } },
  };
  return ops;
}
BV bv(const APInt & v) { return BV(bitsOf(v).c_str()); }
BV bv(const std::string & s) { return BV(s.c_str()); }
std::string str(const BV & v) { return v.str(); }

void checkPair(Case & c, const APInt & a, const APInt & b)
{
  auto A = bv(a), B = bv(b);
  auto wide = [&] { return b.getActiveBits() > 64; };
  for (auto & o : binaryOps())
  {
    if ((o.div && b.isZero()) || (!o.masks && wide()))
      continue;
    auto g = o.got(A, B).str(), w = bitsOf(o.want(a, b));
    if (g != w)
      c.bad(std::string(o.name) + " of " + A.str() + " and " + B.str() + " is " + g + ", should be " + w + " (least significant bit first)");
    c.stat("binary");
  }
  for (auto & o : compareOps())
  {
    auto g = o.got(A, B), w = o.want(a, b) ? '1' : '0';
    if (g != w)
      c.bad(std::string(o.name) + " of " + A.str() + " and " + B.str() + " is " + g + ", should be " + w);
    c.stat("compare");
  }
  if ((A == B) != (a == b) || (A != B) != (a != b))
    c.bad("equality of " + A.str() + " and " + B.str());
}
void checkSingle(Case & c, Rng & r, const APInt & a)
{
  unsigned w = a.getBitWidth();
  auto A = bv(a);
  auto same = [&](const char * what, const BV & g, const APInt & x)
  {
    c.stat("unary");
    if (g.str() != bitsOf(x) || g.nbits() != x.getBitWidth())
      c.bad(std::string(what) + " of " + A.str() + " is " + g.str() + ", should be " + bitsOf(x));
  };
  same("neg", A.neg(), -a);
  same("not", A.lnot(), ~a);
  unsigned e = r.below(20);
  same("zext", A.zext(e), a.zext(w + e));
  same("sext", A.sext(e), a.sext(w + e));
  unsigned t = r.range(1, w);
  same("trunc", A.trunc(t), a.trunc(t));
  unsigned lo = r.below(w), hi = r.range(lo + 1, w);
  same("slice", A.slice(lo, hi), a.extractBits(hi - lo, lo));
  auto o = randomValue(r, randomWidth(r));
  same("concat", A.concat(bv(o)), o.zext(w + o.getBitWidth()).shl(w) | a.zext(w + o.getBitWidth()));
  {
    BV x(A);
    x.Append(bv(o));
    same("append", x, o.zext(w + o.getBitWidth()).shl(w) | a.zext(w + o.getBitWidth()));
    auto p = randomValue(r, randomWidth(r));
    unsigned tw = w + o.getBitWidth() + p.getBitWidth();
    same("create", BV::create({ A, bv(o), bv(p) }), a.zext(tw) | o.zext(tw).shl(w) | p.zext(tw).shl(w + o.getBitWidth()));
  }
  auto flag = [&](const char * what, bool g, bool x)
  {
    if (g != x)
      c.bad(std::string(what) + " of " + A.str() + " is " + (g ? "true" : "false"));
  };
  flag("is_negative", A.is_negative(), a.isNegative());
  flag("sign", A.sign() == '1', a.isNegative());
  flag("is_known", A.is_known(), true);
  flag("is_defined", A.is_defined(), true);
  auto number = [&](const char * what, bool fits, uint64_t want, std::function<uint64_t()> f)
  {
    c.stat("numbers");
    uint64_t g = 0;
    bool threw = false;
    try { g = f(); } catch (std::range_error &) { threw = true; }
    if (threw == fits || (fits && g != want))
      c.bad(std::string(what) + " of " + A.str() + (threw ? " throws" : " is " + std::to_string(g)) + (fits ? ", should be " + std::to_string(want) : ", but does not fit"));
  };
  number("to_uint", a.getActiveBits() <= 64, a.getActiveBits() <= 64 ? a.getZExtValue() : 0, [&] { return A.to_uint(); });
  number("to_int", a.getSignificantBits() <= 64, a.getSignificantBits() <= 64 ? (uint64_t)a.getSExtValue() : 0, [&] { return (uint64_t)A.to_int(); });
  if (a.getSignificantBits() <= 64)
  {
    BV x(w, a.getSExtValue());
    if (x != A || !(A == a.getSExtValue()))
      c.bad("the bits of " + std::to_string(a.getSExtValue()) + " are " + x.str() + ", should be " + A.str());
  }
  if (a.getActiveBits() <= 63)
  {
    BV x(w, (int64_t)a.getZExtValue());
    if (x != A)
      c.bad("the bits of " + std::to_string(a.getZExtValue()) + " are " + x.str() + ", should be " + A.str());
  }
  if (w < 63)
    for (int64_t v : { (int64_t)1 << w, -((int64_t)1 << w) - 1 })
    {
      bool threw = false;
      try { BV x(w, v); } catch (jlm::util::Error &) { threw = true; }
      flag("a value that does not fit was accepted: width", !threw, false);
    }
  // single bits
  {
    BV x(A);
    size_t k = r.below(w);
    x[k] = a[k] ? '0' : '1';
    auto y = a;
    y.flipBit(k);
    same("flipped bit", x, y);
    flag("self comparison", A == bitsOf(a), true);
    flag("string comparison", A == bitsOf(y), false);
  }
}
// unknown bits: whatever they turn out to be, the known bits of results have to be right
void checkUnknown(Case & c, Rng & r, unsigned w)
{
  auto mask = [&](std::string s)
  {
    char k = r.chance(50) ? 'X' : 'D';
    int p = r.range(5, 60);
    for (auto & ch : s)
      if (r.chance(p))
        ch = r.chance(85) ? k : r.chance(50) ? 'X' : 'D';
    return s;
  };
  auto sa = mask(bitsOf(randomValue(r, w))), sb = mask(bitsOf(randomValue(r, w)));
  auto A = bv(sa), B = bv(sb);
  auto fill = [&](std::string s)
  {
    for (auto & ch : s)
      if (ch == 'X' || ch == 'D')
        ch = r.chance(50) ? '1' : '0';
    return apOf(s);
  };
  bool known = sa.find_first_of("XD") == std::string::npos;
  if (A.is_known() != known || A.is_defined() != (sa.find('X') == std::string::npos))
    c.bad("is_known or is_defined of " + sa);
  if (!known)
  {
    bool threw = false;
    try { A.to_uint(); } catch (std::range_error &) { threw = true; }
    if (!threw)
      c.bad("to_uint of " + sa + " does not throw");
  }
  for (int k = 0; k < 6; k++)
  {
    auto a = fill(sa), b = fill(sb);
    auto ok = [&](const std::string & what, const std::string & g, const std::string & x)
    {
      c.stat("unknown");
      if (g.size() != x.size())
        c.bad(what + " of " + sa + " and " + sb + " is " + g + ": wrong width");
      for (size_t i = 0; i < x.size(); i++)
        if ((g[i] == '0' || g[i] == '1') && g[i] != x[i])
          c.bad(what + " of " + sa + " and " + sb + " is " + g + ", but could be " + x);
    };
    for (auto & o : binaryOps())
      if (o.masks && !o.div)
        ok(o.name, o.got(A, B).str(), bitsOf(o.want(a, b)));
    for (auto & o : compareOps())
      ok(o.name, std::string(1, o.got(A, B)), o.want(a, b) ? "1" : "0");
    ok("neg", A.neg().str(), bitsOf(-a));
    ok("not", A.lnot().str(), bitsOf(~a));
    unsigned s = r.below(w + 3);
    ok("shl", A.shl(s).str(), bitsOf(a.shl(std::min(s, w))));
    ok("shr", A.shr(s).str(), bitsOf(a.lshr(std::min(s, w))));
    ok("ashr", A.ashr(s).str(), bitsOf(a.ashr(std::min(s, w))));
    ok("sext", A.sext(5).str(), bitsOf(a.sext(w + 5)));
    ok("concat", A.concat(B).str(), bitsOf(a) + bitsOf(b));
  }
  // bitwise operations decide whatever can be decided
  for (size_t i = 0; i < w; i++)
  {
    auto isKnown = [](char x) { return x == '0' || x == '1'; };
    if ((sa[i] == '0' || sb[i] == '0') && A.land(B)[i] != '0')
      c.bad("and of " + sa + " and " + sb + " does not know bit " + std::to_string(i));
    if ((sa[i] == '1' || sb[i] == '1') && A.lor(B)[i] != '1')
      c.bad("or of " + sa + " and " + sb + " does not know bit " + std::to_string(i));
    if (isKnown(sa[i]) && isKnown(sb[i]) && !isKnown(A.lxor(B)[i]))
      c.bad("xor of " + sa + " and " + sb + " does not know bit " + std::to_string(i));
  }
}

// ------------------------------------------------------------------ folding of integer operations
struct IntOp
{
  const char * name;
  std::function<std::unique_ptr<Operation>(size_t)> make;
  std::function<std::optional<std::vector<Output *>>(const Operation &, const std::vector<Output *> &)> fold;
  std::function<APInt(const APInt &, const APInt &)> want; // result of full width or 1 bit
  bool div = false, shift = false;
};
template<class T> IntOp intOp(const char * n, std::function<APInt(const APInt &, const APInt &)> w, bool div = false, bool shift = false)
{
  return { n, [](size_t k) { return std::make_unique<T>(k); },
           [](const Operation & o, const std::vector<Output *> & x) { return T::foldConstants(static_cast<const T &>(o), x); }, w, div, shift };
}
APInt bit(bool b) { return APInt(1, b); }
const std::vector<IntOp> & intOps()
{
  static const std::vector<IntOp> ops = {
    intOp<jl::IntegerAddOperation>("IAdd", [](auto & a, auto & b) { return a + b; }),
    intOp<jl::IntegerSubOperation>("ISub", [](auto & a, auto & b) { return a - b; }),
    intOp<jl::IntegerMulOperation>("IMul", [](auto & a, auto & b) { return a * b; }),
    intOp<jl::IntegerSDivOperation>("ISDiv", [](auto & a, auto & b) { return a.sdiv(b); }, true),
    intOp<jl::IntegerUDivOperation>("IUDiv", [](auto & a, auto & b) { return a.udiv(b); }, true),
    intOp<jl::IntegerSRemOperation>("ISRem", [](auto & a, auto & b) { return a.srem(b); }, true),
    intOp<jl::IntegerURemOperation>("IURem", [](auto & a, auto & b) { return a.urem(b); }, true),
    intOp<jl::IntegerAShrOperation>("IAShr", [](auto & a, auto & b) { return a.ashr(b); }, false, true),
    intOp<jl::IntegerShlOperation>("IShl", [](auto & a, auto & b) { return a.shl(b); }, false, true),
    intOp<jl::IntegerLShrOperation>("ILShr", [](auto & a, auto & b) { return a.lshr(b); }, false, true),
    intOp<jl::IntegerAndOperation>("IAnd", [](auto & a, auto & b) { return a & b; }),
    intOp<jl::IntegerOrOperation>("IOr", [](auto & a, auto & b) { return a | b; }),
    intOp<jl::IntegerXorOperation>("IXor", [](auto & a, auto & b) { return a ^ b; }),
    intOp<jl::IntegerEqOperation>("IEq", [](auto & a, auto & b) { return bit(a == b); }),
    intOp<jl::IntegerNeOperation>("INe", [](auto & a, auto & b) { return bit(a != b); }),
    intOp<jl::IntegerSgeOperation>("ISge", [](auto & a, auto & b) { return bit(a.sge(b)); }),
    intOp<jl::IntegerSgtOperation>("ISgt", [](auto & a, auto & b) { return bit(a.sgt(b)); }),
    intOp<jl::IntegerSleOperation>("ISle", [](auto & a, auto & b) { return bit(a.sle(b)); }),
    intOp<jl::IntegerSltOperation>("ISlt", [](auto & a, auto & b) { return bit(a.slt(b)); }),
    intOp<jl::IntegerUgeOperation>("IUge", [](auto & a, auto & b) { return bit(a.uge(b)); }),
    intOp<jl::IntegerUgtOperation>("IUgt", [](auto & a, auto & b) { return bit(a.ugt(b)); }),
    intOp<jl::IntegerUleOperation>("IUle", [](auto & a, auto & b) { return bit(a.ule(b)); }),
    intOp<jl::IntegerUltOperation>("IUlt", [](auto & a, auto & b) { return bit(a.ult(b)); }),
  };
  return ops;
}
void checkFold(Case & c, Rng & r)
{
  Graph g;
  auto & root = g.GetRootRegion();
  unsigned w = randomWidth(r);
  for (int k = 0; k < 12; k++)
  {
    auto & o = r.pick(intOps());
    auto a = randomValue(r, w), b = randomValue(r, w);
    if (o.shift && r.chance(85))
      b = APInt(64, r.below(w)).zextOrTrunc(w);
    // division by zero and overflowing division are undefined: the program never gets there, any result will do, and the
    // compiler has to survive
    bool undefined = (o.shift && b.uge(w)) || o.div && (b.isZero() || (b.isAllOnes() && a.isMinSignedValue() && o.name[1] == 'S'));
    auto & ca = *jl::IntegerConstantOperation::Create(root, bv(a)).output(0);
    auto & cb = *jl::IntegerConstantOperation::Create(root, bv(b)).output(0);
    auto op = o.make(w);
    Output * x = &ca;
    Output * y = &cb;
    // through entry variables of a conditional
    GammaNode * gamma = nullptr;
    if (r.chance(30))
    {
      gamma = GammaNode::create(&ControlConstantOperation::create(root, 2, r.below(2)), 2);
      auto e = gamma->AddEntryVar(x), f = gamma->AddEntryVar(y);
      int s = r.below(2);
      x = e.branchArgument[s];
      y = f.branchArgument[s];
    }
    auto res = o.fold(*op, { x, y });
    c.stat("folds");
    if (undefined)
      continue;
    if (!res)
    {
      c.stat("not.folded");
      continue;
    }
    if (res->size() != 1)
      c.bad(std::string("folding ") + o.name + " gives several results");
    auto [n, k2] = TryGetSimpleNodeAndOptionalOp<jl::IntegerConstantOperation>(*(*res)[0]);
    if (!k2)
      c.bad(std::string("folding ") + o.name + " gives no constant");
    if ((*res)[0]->region() != x->region())
      c.bad(std::string("folding ") + o.name + " gives a constant in another region");
    auto want = bitsOf(o.want(a, b)), got = k2->Representation().str();
    if (want != got)
      c.bad(std::string(o.name) + " of " + bitsOf(a) + " and " + bitsOf(b) + " is folded to " + got + ", should be " + want);
    c.seen(got);
  }
}
}
int bitsMode(const Args & a)
{
  return modelMode(a, "bits", 20, [](Rng & r, Case & c)
  {
    // small widths densely
    unsigned w = r.range(1, 4);
    for (int k = 0; k < 40; k++)
    {
      APInt x(w, r.below(1u << w)), y(w, r.below(1u << w));
      checkPair(c, x, y);
    }
    for (int k = 0; k < 12; k++)
    {
      w = randomWidth(r);
      auto x = randomValue(r, w), y = randomValue(r, w);
      c.seen(bitsOf(x) + bitsOf(y));
      checkPair(c, x, y);
      checkSingle(c, r, x);
      if (k % 3 == 0)
        checkUnknown(c, r, std::min(w, 40u));
    }
    // operands of different widths are refused
    {
      auto A = bv(APInt(4, 5)), B = bv(APInt(5, 9));
      int threw = 0, n = 0;
      for (auto & o : binaryOps())
        if (o.masks && !o.div)
        {
          n++;
          try { o.got(A, B); } catch (jlm::util::Error &) { threw++; }
        }
      if (threw != n)
        c.bad("operands of different widths were accepted");
    }
    for (int k = 0; k < 3; k++)
      checkFold(c, r);
    // match
    {
      unsigned mw = r.range(1, 40);
      size_t nalt = r.range(2, 6);
      std::unordered_map<uint64_t, uint64_t> m;
      for (int k = r.range(0, 6); k > 0; k--)
        m[randomValue(r, mw).getZExtValue()] = r.below(nalt);
      size_t def = r.below(nalt);
      MatchOperation op(mw, m, def, nalt);
      auto cp = op.copy();
      if (!(*cp == op) || op.nalternatives() != nalt || op.nbits() != mw || op.default_alternative() != def)
        c.bad("a match operation differs from its copy or parameters");
      for (int k = 0; k < 10; k++)
      {
        auto v = k < 5 || m.empty() ? randomValue(r, mw).getZExtValue() : m.begin()->first;
        auto it = m.find(v);
        if (op.alternative(v) != (it == m.end() ? def : it->second) || static_cast<MatchOperation &>(*cp).alternative(v) != op.alternative(v))
          c.bad("match of " + std::to_string(v));
      }
      auto m2 = m;
      m2[randomValue(r, mw).getZExtValue()] = r.below(nalt);
      MatchOperation other(mw, m2, def, nalt);
      bool eq = m == m2;
      if ((other == op) && !eq)
        for (auto & kv : m2)
          if (other.alternative(kv.first) != op.alternative(kv.first))
            c.bad("match operations with different mappings are equal");
      c.stat("matches");
    }
  });
}

// ------------------------------------------------------------------ graphs of bit string operations
namespace
{
struct GOp
{
  const char * name;
  std::function<Output *(size_t, Output *, Output *)> make;
  std::function<bool(const Operation &)> is;
  int ref; // index into binaryOps
};
template<class T> GOp gop(const char * n, int ref)
{
  return { n, [](size_t w, Output * a, Output * b) { return T::create(w, a, b); }, [](const Operation & o) { return dynamic_cast<const T *>(&o) != nullptr; }, ref };
}
int refIndex(const char * n)
{
  for (size_t i = 0; i < binaryOps().size(); i++)
    if (!strcmp(binaryOps()[i].name, n))
      return i;
  abort();
}
const std::vector<GOp> & graphOps()
{
  static const std::vector<GOp> ops = {
    gop<bitadd_op>("add", refIndex("add")), gop<bitsub_op>("sub", refIndex("sub")), gop<bitmul_op>("mul", refIndex("mul")),
    gop<bitand_op>("and", refIndex("and")), gop<bitor_op>("or", refIndex("or")), gop<bitxor_op>("xor", refIndex("xor")),
    gop<bitshl_op>("shl", refIndex("shl")), gop<bitshr_op>("shr", refIndex("shr")), gop<bitashr_op>("ashr", refIndex("ashr")),
    gop<bitudiv_op>("udiv", refIndex("udiv")), gop<bitumod_op>("umod", refIndex("umod")), gop<bitsdiv_op>("sdiv", refIndex("sdiv")),
    gop<bitsmod_op>("smod", refIndex("smod")), gop<bitumulh_op>("umulh", refIndex("umulh")), gop<bitsmulh_op>("smulh", refIndex("smulh")),
  };
  return ops;
}
struct GCmp
{
  std::function<Output *(size_t, Output *, Output *)> make;
  std::function<bool(const Operation &)> is;
  int ref;
};
template<class T> GCmp gcmp(const char * n)
{
  int k = -1;
  for (size_t i = 0; i < compareOps().size(); i++)
    if (!strcmp(compareOps()[i].name, n))
      k = i;
  return { [](size_t w, Output * a, Output * b) { return T::create(w, a, b); }, [](const Operation & o) { return dynamic_cast<const T *>(&o) != nullptr; }, k };
}
const std::vector<GCmp> & graphCmps()
{
  static const std::vector<GCmp> ops = { gcmp<biteq_op>("eq"), gcmp<bitne_op>("ne"), gcmp<bitult_op>("ult"), gcmp<bitule_op>("ule"), gcmp<bitugt_op>("ugt"),
                                         gcmp<bituge_op>("uge"), gcmp<bitslt_op>("slt"), gcmp<bitsle_op>("sle"), gcmp<bitsgt_op>("sgt"), gcmp<bitsge_op>("sge") };
  return ops;
}
size_t widthOf(const Output & o) { return std::static_pointer_cast<const BitType>(o.Type())->nbits(); }

// the value of an output under an assignment of the arguments; nothing if it is undefined
using Val = std::optional<std::string>;
struct Interp
{
  std::unordered_map<const Output *, Val> val;
  Val binary(const Operation & o, const std::string & a, const std::string & b)
  {
    for (auto & g : graphOps())
      if (g.is(o))
      {
        auto & ref = binaryOps()[g.ref];
        auto y = apOf(b);
        if ((ref.div && y.isZero()) || (!ref.masks && y.getActiveBits() > 64))
          return {};
        return bitsOf(ref.want(apOf(a), y));
      }
    for (auto & g : graphCmps())
      if (g.is(o))
        return std::string(compareOps()[g.ref].want(apOf(a), apOf(b)) ? "1" : "0");
    fprintf(stderr, "uninterpreted %s\n", o.debug_string().c_str());
    abort();
  }
  Val eval(const Output & o)
  {
    auto it = val.find(&o);
    if (it != val.end())
      return it->second;
    auto v = compute(o);
    val[&o] = v;
    return v;
  }
  Val compute(const Output & o)
  {
    if (auto g = TryGetRegionParentNode<GammaNode>(o))
      return eval(*g->mapBranchArgumentToInput(const_cast<Output &>(o)).origin());
    if (auto g = TryGetOwnerNode<GammaNode>(o))
    {
      auto p = eval(*g->predicate()->origin());
      if (!p)
        return {};
      auto e = g->MapOutputExitVar(o);
      return eval(*e.branchResult[std::stoul(*p)]->origin());
    }
    auto & n = AssertGetOwnerNode<SimpleNode>(o);
    auto & op = n.GetOperation();
    std::vector<std::string> in;
    for (auto & i : n.Inputs())
    {
      auto v = eval(*i.origin());
      if (!v)
        return {};
      in.push_back(*v);
    }
    if (auto k = dynamic_cast<const BitConstantOperation *>(&op))
      return k->value().str();
    if (auto k = dynamic_cast<const ControlConstantOperation *>(&op))
      return std::to_string(k->value().alternative());
    if (auto m = dynamic_cast<const MatchOperation *>(&op))
      return std::to_string(m->alternative(apOf(in[0]).getZExtValue()));
    if (dynamic_cast<const bitneg_op *>(&op))
      return bitsOf(-apOf(in[0]));
    if (dynamic_cast<const bitnot_op *>(&op))
      return bitsOf(~apOf(in[0]));
    if (auto s = dynamic_cast<const BitSliceOperation *>(&op))
      return in[0].substr(s->low(), s->high() - s->low());
    if (dynamic_cast<const BitConcatOperation *>(&op))
    {
      std::string s;
      for (auto & x : in)
        s += x;
      return s;
    }
    if (auto f = dynamic_cast<const FlattenedBinaryOperation *>(&op))
    {
      Val v = in[0];
      for (size_t k = 1; k < in.size(); k++)
      {
        v = binary(f->bin_operation(), *v, in[k]);
        if (!v)
          return {};
      }
      return v;
    }
    return binary(op, in[0], in[1]);
  }
};
template<class T> bool tryReduce(SimpleNode & n, std::optional<std::vector<Output *>> (*f)(const T &, const std::vector<Output *> &))
{
  return dynamic_cast<const T *>(&n.GetOperation()) && ReduceNode<T>(NodeNormalization<T>(f), n);
}
struct GraphGen
{
  Rng & r;
  Case & c;
  void grow(Region & region, std::vector<Output *> & pool, int n, int depth)
  {
    auto pick = [&] { return pool[r.chance(60) && pool.size() > 6 ? pool.size() - 1 - r.below(6) : r.below(pool.size())]; };
    auto ofWidth = [&](size_t w) -> Output *
    {
      std::vector<Output *> m;
      for (auto o : pool)
        if (widthOf(*o) == w)
          m.push_back(o);
      if (!m.empty() && r.chance(85))
        return r.pick(m);
      auto & k = BitConstantOperation::create(region, bv(randomValue(r, w)));
      pool.push_back(&k);
      return &k;
    };
    for (int i = 0; i < n; i++)
    {
      auto a = pick();
      auto w = widthOf(*a);
      Output * o = nullptr;
      switch (r.below(depth > 0 ? 12 : 11))
      {
      case 0:
        o = &BitConstantOperation::create(region, bv(randomValue(r, r.chance(60) ? w : r.range(1, 9))));
        break;
      case 1:
        o = r.chance(50) ? bitneg_op::create(w, a) : bitnot_op::create(w, a);
        break;
      case 2: case 3:
      {
        size_t lo = r.chance(30) ? 0 : r.below(w), hi = r.chance(30) ? w : r.range(lo + 1, w);
        o = bitslice(a, lo, hi);
        if (hi < w && r.chance(40)) // an adjacent slice, to be merged by a concatenation
        {
          pool.push_back(o);
          auto p = bitslice(a, hi, r.range(hi + 1, w));
          pool.push_back(p);
          o = bitconcat({ o, p });
        }
        break;
      }
      case 4:
      {
        if (w > 90)
          continue;
        std::vector<Output *> v = { a };
        for (int k = r.range(1, r.chance(70) ? 1 : 3); k > 0; k--)
          v.push_back(pick());
        size_t t = 0;
        for (auto x : v)
          t += widthOf(*x);
        if (t > 120)
          continue;
        o = bitconcat(v);
        break;
      }
      case 5:
        o = r.pick(graphCmps()).make(w, a, ofWidth(w));
        break;
      case 6: case 7:
      {
        // chains of associative operations
        static const int assoc[] = { 0, 2, 3, 4, 5 };
        auto & g = graphOps()[assoc[r.below(5)]];
        for (int k = r.range(2, 5); k > 0; k--)
        {
          auto b = r.chance(40) ? &BitConstantOperation::create(region, bv(randomValue(r, w))) : ofWidth(w);
          a = r.chance(50) ? g.make(w, a, b) : g.make(w, b, a);
          pool.push_back(a);
        }
        continue;
      }
      case 11:
      {
        // a conditional
        size_t nalt = r.range(2, 3);
        if (w > 60)
          continue;
        std::unordered_map<uint64_t, uint64_t> m;
        for (int k = r.range(1, 3); k > 0; k--)
          m[randomValue(r, w).getZExtValue()] = r.below(nalt);
        auto p = r.chance(80) ? MatchOperation::Create(*a, m, r.below(nalt), nalt) : &ControlConstantOperation::create(region, nalt, r.below(nalt));
        auto g = GammaNode::create(p, nalt);
        std::vector<std::vector<Output *>> pools(nalt);
        for (int k = r.range(1, 5); k > 0; k--)
        {
          auto e = g->AddEntryVar(pick());
          for (size_t s = 0; s < nalt; s++)
            pools[s].push_back(e.branchArgument[s]);
        }
        for (size_t s = 0; s < nalt; s++)
          grow(*g->subregion(s), pools[s], r.range(0, 6), depth - 1);
        for (int k = r.range(1, 3); k > 0; k--)
        {
          auto x = r.pick(pools[0]);
          std::vector<Output *> v = { x };
          for (size_t s = 1; s < nalt; s++)
          {
            Output * y = nullptr;
            for (auto o2 : pools[s])
              if (widthOf(*o2) == widthOf(*x) && (!y || r.chance(40)))
                y = o2;
            if (!y)
              y = &BitConstantOperation::create(*g->subregion(s), bv(randomValue(r, widthOf(*x))));
            v.push_back(y);
          }
          pool.push_back(g->AddExitVar(v).output);
        }
        c.stat("conditionals");
        continue;
      }
      default:
      {
        auto & g = r.pick(graphOps());
        o = g.make(w, a, ofWidth(w));
        break;
      }
      }
      pool.push_back(o);
    }
  }
};
void simpleNodes(Region & region, std::vector<SimpleNode *> & out)
{
  for (auto & n : region.Nodes())
    if (auto s = dynamic_cast<SimpleNode *>(&n))
      out.push_back(s);
    else if (auto st = dynamic_cast<StructuralNode *>(&n))
      for (auto & q : st->Subregions())
        simpleNodes(q, out);
}
}
int bitGraphMode(const Args & a)
{
  return modelMode(a, "bitgraph", 20, [](Rng & r, Case & c)
  {
    Graph g;
    auto & root = g.GetRootRegion();
    std::vector<Output *> pool, args;
    for (int k = r.range(1, 4); k > 0; k--)
      args.push_back(&GraphImport::Create(g, BitType::Create(r.chance(70) ? r.range(1, 8) : r.range(9, 70)), "a" + std::to_string(k)));
    pool = args;
    GraphGen gen{ r, c };
    gen.grow(root, pool, r.range(5, 25), 2);
    std::vector<Input *> outs;
    for (auto o : pool)
      if (std::find(args.begin(), args.end(), o) == args.end() && (r.chance(25) || o == pool.back()))
        outs.push_back(&GraphExport::Create(*o, "r" + std::to_string(outs.size())));
    std::vector<std::unordered_map<const Output *, Val>> assign;
    std::vector<std::vector<Val>> want;
    for (int k = 0; k < 8; k++)
    {
      std::unordered_map<const Output *, Val> m;
      for (auto x : args)
        m[x] = bitsOf(randomValue(r, widthOf(*x)));
      assign.push_back(m);
      Interp in{ m };
      std::vector<Val> v;
      for (auto o : outs)
      {
        v.push_back(in.eval(*o->origin()));
        c.seen(v.back() ? *v.back() : "u");
      }
      want.push_back(v);
    }
    auto before = view(&root);
    int reductions = 0;
    std::string last;
    auto check = [&]
    {
      GraphStats st;
      auto e = checkGraph(g, st);
      if (!e.empty())
        c.bad("after " + last + ": " + e);
      for (size_t k = 0; k < assign.size(); k++)
      {
        Interp in{ assign[k] };
        for (size_t i = 0; i < outs.size(); i++)
        {
          auto v = in.eval(*outs[i]->origin());
          c.stat("evaluations");
          if (want[k][i] && v != want[k][i])
            c.bad("after " + last + " output " + std::to_string(i) + " is " + (v ? *v : "undefined") + ", was " + *want[k][i]);
        }
      }
    };
    bool flatten = r.chance(50);
    for (int round = 0; round < 40; round++)
    {
      std::vector<SimpleNode *> ns;
      simpleNodes(root, ns);
      bool any = false;
      for (int t = 0; t < 30 && !ns.empty(); t++)
      {
        auto & n = *r.pick(ns);
        if (n.noutputs() && n.output(0)->IsDead())
          continue;
        last = n.DebugString();
        bool done = false;
        switch (r.below(10))
        {
        case 9: done = tryReduce<FlattenedBinaryOperation>(n, NormalizeFlattenedBinaryOperation); last += " NormalizeFlattened"; break;
        case 0: done = tryReduce<BitUnaryOperation>(n, BitUnaryOperation::foldConstant); last += " foldUnary"; break;
        case 1: done = tryReduce<BitBinaryOperation>(n, BitBinaryOperation::foldConstants); last += " foldConstants"; break;
        case 2: done = tryReduce<BitCompareOperation>(n, BitCompareOperation::foldConstants); last += " foldCompare"; break;
        case 3: done = tryReduce<BitSliceOperation>(n, BitSliceOperation::normalizeIdempotent) ; last += " sliceIdempotent"; break;
        case 4: done = tryReduce<BitSliceOperation>(n, BitSliceOperation::foldConstant); last += " sliceFold"; break;
        case 5: done = tryReduce<BitSliceOperation>(n, BitSliceOperation::narrowSlice); last += " narrowSlice"; break;
        case 6: done = tryReduce<BitSliceOperation>(n, BitSliceOperation::distributeSlice); last += " distributeSlice"; break;
        case 7:
          if (n.ninputs() == 2)
            done = tryReduce<BinaryOperation>(n, NormalizeBinaryOperation);
          last += " NormalizeBinary";
          break;
        default:
          if (flatten)
            done = n.ninputs() == 2 && r.chance(50) ? tryReduce<BitBinaryOperation>(n, [](const BitBinaryOperation & o, const std::vector<Output *> & x) { return FlattenAssociativeBinaryOperation(o, x); })
                                : tryReduce<BitConcatOperation>(n, FlattenBitConcatOperation);
          last += " flatten";
        }
        if (done)
        {
          any = true;
          reductions++;
          c.stat("reductions");
          check();
          break; // nodes were removed
        }
      }
      (void)any;
    }
    if (flatten && r.chance(70))
    {
      last = "FlattenedBinaryOperation::reduce";
      FlattenedBinaryOperation::reduce(&root, r.chance(50) ? FlattenedBinaryOperation::reduction::linear : FlattenedBinaryOperation::reduction::parallel);
      check();
    }
    root.prune(true);
    last = "prune";
    check();
    c.stat("graphs");
    c.nonTrivial = reductions > 0;
    c.seen(before);
  });
}
}
