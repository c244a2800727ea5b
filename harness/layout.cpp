// Sizes, alignments and field offsets of random types against LLVM's data layout; conversion of types and back.
#include "common.hpp"
#include "diff.hpp"
#include "modes.hpp"
#include <jlm/llvm/ir/TypeConverter.hpp>
#include <jlm/llvm/ir/types.hpp>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
namespace vh
{
static Type * randomType(Rng & r, LLVMContext & c, int depth, int & budget)
{
  budget--;
  auto scalar = [&]() -> Type *
  {
    switch (r.below(12))
    {
    case 0: return Type::getInt8Ty(c);
    case 1: return Type::getInt16Ty(c);
    case 2: case 3: return Type::getInt32Ty(c);
    case 4: return Type::getInt64Ty(c);
    case 5: return Type::getFloatTy(c);
    case 6: return Type::getDoubleTy(c);
    case 7: return PointerType::get(c, 0);
    case 8: return Type::getHalfTy(c);
    case 9: return Type::getX86_FP80Ty(c);
    case 10: return Type::getInt1Ty(c);
    default: return IntegerType::get(c, 1 + r.below(r.chance(75) ? 64 : r.chance(70) ? 128 : 520));
    }
  };
  if (depth <= 0 || budget <= 0 || r.chance(35))
    return scalar();
  switch (r.below(6))
  {
  case 0: case 1:
    return ArrayType::get(randomType(r, c, depth - 1, budget), r.chance(10) ? 0 : 1 + r.below(9));
  case 2:
  {
    auto e = scalar();
    return FixedVectorType::get(e, 1 + r.below(r.chance(70) ? 8 : 33));
  }
  default:
  {
    std::vector<Type *> f;
    int n = r.chance(5) ? 0 : r.range(1, 6);
    for (int i = 0; i < n; i++)
      f.push_back(randomType(r, c, depth - 1, budget));
    if (r.chance(50) && n)
      return StructType::create(f, "s" + std::to_string(r.below(1000)), r.chance(25));
    return StructType::get(c, f, r.chance(25));
  }
  }
}
int layoutMode(const Args & a)
{
  Report rep;
  uint64_t seed = a.num("seed", 1), from = a.num("from", 0), to = a.num("to", 10);
  DataLayout dl("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  for (uint64_t i = from; i < to; i++)
  {
    auto r = runChild([&]
    {
      LLVMContext c, c2;
      Rng r(mix(seed ^ 0x1a7, i));
      jlm::llvm::TypeConverter tc;
      uint64_t h = 0;
      int nTypes = 0, nFields = 0;
      for (int k = 0; k < 60; k++)
      {
        int budget = 30;
        auto t = randomType(r, c, 4, budget);
        auto j = tc.ConvertLlvmType(*t);
        std::string s;
        raw_string_ostream os(s);
        t->print(os);
        os.flush();
        auto bad = [&](const std::string & what, uint64_t x, uint64_t y)
        {
          printf("BAD %s of %s: %llu, data layout says %llu\n", what.c_str(), s.c_str(), (unsigned long long)x, (unsigned long long)y);
        };
        auto cmp = [&](const std::string & what, uint64_t x, uint64_t y)
        {
          if (x != y)
            bad(what, x, y);
        };
        cmp("store size", jlm::llvm::GetTypeStoreSize(*j), dl.getTypeStoreSize(t).getFixedValue());
        cmp("allocation size", jlm::llvm::GetTypeAllocSize(*j), dl.getTypeAllocSize(t).getFixedValue());
        cmp("alignment", jlm::llvm::GetTypeAlignment(*j), dl.getABITypeAlign(t).value());
        nTypes++;
        h = mix(h, std::hash<std::string>()(s));
        if (auto st = dyn_cast<StructType>(t))
        {
          auto js = std::dynamic_pointer_cast<const jlm::llvm::StructType>(j);
          auto sl = dl.getStructLayout(st);
          for (unsigned f = 0; f < st->getNumElements(); f++, nFields++)
            cmp("offset of field " + std::to_string(f), js->GetFieldOffset(f), sl->getElementOffset(f).getFixedValue());
        }
        if (tc.ConvertLlvmType(*t) != j && *tc.ConvertLlvmType(*t) != *j)
          bad("repeated conversion", 0, 0);
        jlm::llvm::TypeConverter tc2;
        auto back = tc2.ConvertJlmType(*j, c);
        if (back != t)
        {
          // named structs may be new objects
          std::string s2;
          raw_string_ostream os2(s2);
          back->print(os2);
          os2.flush();
          if (!isa<StructType>(t) && s2.find('%') == std::string::npos && s2 != s)
            bad("conversion back gives " + s2, 0, 0);
          cmp("size after conversion back", dl.getTypeAllocSize(back).getFixedValue(), dl.getTypeAllocSize(t).getFixedValue());
        }
      }
      printf("OK %llx %d %d\n", (unsigned long long)h, nTypes, nFields);
    }, 30);
    auto lines = split(r.out, '\n');
    std::string first, ok;
    for (auto & l : lines)
      if (l.rfind("BAD ", 0) == 0 && first.empty())
        first = l.substr(4);
      else if (l.rfind("OK ", 0) == 0)
        ok = l.substr(3);
    if (!r.exited || r.code)
      first = "crash: " + crashKey(r);
    auto w = split(ok, ' ');
    if (w.size() == 3)
    {
      rep.stat("types", atoi(w[1].c_str()));
      rep.stat("fields", atoi(w[2].c_str()));
    }
    printf("CASE\tL%llu\t%s\t1\ttypes\n", (unsigned long long)i, w.empty() ? "0" : w[0].c_str());
    if (!first.empty())
      rep.violation("L" + std::to_string(i), first, first + " (vh layout --seed " + std::to_string(seed) + " --from " + std::to_string(i) + ")", "-");
  }
  rep.flush();
  return 0;
}
}
