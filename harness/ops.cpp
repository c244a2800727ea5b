// Programs over many types: every operation on every kind of value, aggregates in registers and in memory,
// odd integer widths, vectors, byval/sret/varargs calls, tables of functions, imported globals.
#include "common.hpp"
#include <cmath>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/NoFolder.h>
using namespace llvm;
namespace vh
{
namespace
{
struct Ops
{
  LLVMContext & C;
  Module & M;
  Rng R;
  IRBuilder<NoFolder> B;
  Type *I1, *I8, *I16, *I32, *I64, *V, *H, *F32, *F64, *F80;
  PointerType * PT;
  std::vector<Type *> pool; // types used in this program
  std::vector<Type *> ints, fps, vecs, aggs;
  std::vector<Function *> fns;
  std::vector<GlobalVariable *> globs; // mutable, typed
  std::vector<GlobalVariable *> consts;
  GlobalVariable * fnTable = nullptr;
  std::vector<GlobalVariable *> imports;
  Function * F = nullptr;
  std::map<Type *, std::vector<Value *>> vars; // addresses, typed
  AllocaInst * raw = nullptr;                  // 32 initialised bytes, accessed with any width
  std::vector<std::pair<Value *, uint64_t>> objs; // objects holding pool aggregates without padding hazards
  int budget = 0, depth = 0, evId = 0;

  Ops(LLVMContext & c, Module & m, uint64_t seed) : C(c), M(m), R(seed), B(c)
  {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I16 = Type::getInt16Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    V = Type::getVoidTy(C); H = Type::getHalfTy(C); F32 = Type::getFloatTy(C); F64 = Type::getDoubleTy(C); F80 = Type::getX86_FP80Ty(C);
    PT = PointerType::get(C, 0);
  }
  FunctionCallee ext(const char * n, Type * r, std::vector<Type *> ps) { return M.getOrInsertFunction(n, FunctionType::get(r, ps, false)); }
  BasicBlock * bb(const char * n) { return BasicBlock::Create(C, n, F); }
  AllocaInst * entryAlloca(Type * t)
  {
    IRBuilder<NoFolder> b(&F->getEntryBlock(), F->getEntryBlock().begin());
    return b.CreateAlloca(t);
  }
  static bool isAgg(Type * t) { return t->isStructTy() || t->isArrayTy(); }
  Type * elemOf(Type * t, unsigned i) { return t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(i); }
  unsigned nElems(Type * t) { return t->isArrayTy() ? t->getArrayNumElements() : t->getStructNumElements(); }

  Type * randInt()
  {
    static const unsigned ws[] = { 1, 8, 16, 32, 64, 32, 64, 7, 33, 24, 128, 65, 2, 48, 256 };
    return IntegerType::get(C, ws[R.below(15)]);
  }
  Type * randFp()
  {
    Type * ts[] = { F32, F64, F64, F32, H, F80 };
    return ts[R.below(6)];
  }
  Type * randScalar() { return R.chance(65) ? randInt() : randFp(); }
  Type * randVec()
  {
    static const unsigned ls[] = { 2, 4, 8, 3, 4, 2 };
    Type * es[] = { I8, I16, I32, I64, I32, F32, F64, I1, I64, I16 }; // LLVM miscompiles vectors of half and of i5 now and then
    return FixedVectorType::get(es[R.below(10)], ls[R.below(6)]);
  }
  Type * randAgg(int d)
  {
    auto elem = [&]() -> Type *
    {
      if (d > 0 && R.chance(30))
        return randAgg(d - 1);
      if (R.chance(12))
        return PT;
      if (R.chance(12))
        return randVec();
      return randScalar();
    };
    if (R.chance(35))
      return ArrayType::get(elem(), R.range(1, 4));
    std::vector<Type *> es;
    for (int i = R.range(1, 4); i > 0; i--)
      es.push_back(elem());
    if (R.chance(30))
      return StructType::create(C, es, "s", R.chance(25));
    return StructType::get(C, es, R.chance(25));
  }

  Constant * constant(Type * t)
  {
    if (R.chance(8))
      return Constant::getNullValue(t);
    if (auto it = dyn_cast<IntegerType>(t))
    {
      if (R.chance(60))
        return ConstantInt::get(t, (uint64_t)(int64_t)R.range(-4, 12), true);
      std::vector<uint64_t> w;
      for (unsigned i = 0; i < it->getBitWidth(); i += 64)
        w.push_back(R.next());
      return ConstantInt::get(C, APInt(it->getBitWidth(), w));
    }
    if (t->isFloatingPointTy())
    {
      static const double ds[] = { 0.0, 1.0, -1.5, 2.25, 1e3, -0.0, 0.1, 1e-5, 65504.0, -3.75 };
      return ConstantFP::get(t, R.chance(80) ? ds[R.below(10)] : (double)(int64_t)R.below(100000) / 64.0 - 500);
    }
    if (auto vt = dyn_cast<FixedVectorType>(t))
    {
      std::vector<Constant *> es;
      for (unsigned i = 0; i < vt->getNumElements(); i++)
        es.push_back(constant(vt->getElementType()));
      if (R.chance(15))
        return ConstantVector::getSplat(ElementCount::getFixed(vt->getNumElements()), es[0]);
      return ConstantVector::get(es);
    }
    if (isAgg(t))
    {
      std::vector<Constant *> es;
      for (unsigned i = 0; i < nElems(t); i++)
        es.push_back(constant(elemOf(t, i)));
      return t->isArrayTy() ? (Constant *)ConstantArray::get(cast<ArrayType>(t), es) : ConstantStruct::get(cast<StructType>(t), es);
    }
    if (t->isPointerTy())
    {
      if (!consts.empty() && R.chance(70))
      {
        auto g = R.pick(consts);
        return g;
      }
      return Constant::getNullValue(t);
    }
    return Constant::getNullValue(t);
  }

  // ---------------------------------------------------------------- logging
  void log(Value * v)
  {
    auto t = v->getType();
    if (auto it = dyn_cast<IntegerType>(t))
    {
      if (it->getBitWidth() <= 64)
      {
        if (it->getBitWidth() == 32 && R.chance(20))
        {
          B.CreateCall(ext("ext_i32", I32, { I32, I32 }), { B.getInt32(evId++ % 1000), v });
          return;
        }
        B.CreateCall(ext("ext_i64", V, { I32, I64 }), { B.getInt32(evId++ % 1000), it->getBitWidth() == 64 ? v : B.CreateZExt(v, I64) });
      }
      else
        for (unsigned s = 0; s < it->getBitWidth(); s += 64)
          B.CreateCall(ext("ext_i64", V, { I32, I64 }),
                       { B.getInt32(evId++ % 1000), B.CreateTrunc(s ? B.CreateLShr(v, ConstantInt::get(it, s)) : v, I64) });
      return;
    }
    if (t->isFloatingPointTy())
    {
      if (t == F80)
        v = B.CreateFPTrunc(v, F64);
      else if (t != F64)
        v = B.CreateFPExt(v, F64);
      B.CreateCall(ext("ext_f64", V, { I32, F64 }), { B.getInt32(evId++ % 1000), v });
      return;
    }
    if (auto vt = dyn_cast<FixedVectorType>(t))
    {
      for (unsigned i = 0; i < vt->getNumElements(); i++)
        log(B.CreateExtractElement(v, R.chance(50) ? B.getInt32(i) : (Value *)B.getInt64(i)));
      return;
    }
    if (isAgg(t))
      for (unsigned i = 0; i < nElems(t); i++)
        log(B.CreateExtractValue(v, { i }));
    // pointers are not observable
  }
  void note(Value * i64) { B.CreateCall(ext("ext_i64", V, { I32, I64 }), { B.getInt32(evId++ % 1000), i64 }); }

  // ---------------------------------------------------------------- expressions
  Value * leaf(Type * t)
  {
    if (t->isPointerTy())
      return R.chance(30) && !consts.empty() ? (Value *)R.pick(consts) : Constant::getNullValue(t);
    auto it = vars.find(t);
    if (it == vars.end() || R.chance(30))
      return constant(t);
    auto l = B.CreateLoad(t, R.pick(it->second));
    return l;
  }
  Value * fitShift(Value * v)
  {
    auto t = v->getType();
    auto s = t->getScalarSizeInBits();
    if ((s & (s - 1)) == 0)
      return B.CreateAnd(v, ConstantInt::get(t, s - 1));
    return B.CreateURem(v, ConstantInt::get(t, s < 4 ? 1 : s)); // i2, i5, i7...: the width itself fits the type from 5 on
  }
  Value * intBin(Type * t, int d)
  {
    auto a = expr(t, d - 1), b = expr(t, d - 1);
    unsigned w = t->getScalarSizeInBits();
    switch (R.below(14))
    {
    default: return B.CreateAdd(a, b);
    case 0: return B.CreateSub(a, b);
    case 1: return B.CreateMul(a, b);
    case 2: return B.CreateAnd(a, b);
    case 3: return B.CreateOr(a, b);
    case 4: return B.CreateXor(a, b);
    case 5: if (w < 8) return a; return B.CreateShl(a, fitShift(b));
    case 6: if (w < 8) return b; return B.CreateLShr(a, fitShift(b));
    case 7: if (w < 8) return a; return B.CreateAShr(a, fitShift(b));
    case 8: case 9:
    {
      if (w > 128 || w < 2)
        return B.CreateXor(a, b);
      b = B.CreateOr(b, ConstantInt::get(t, 1)); // odd: not zero
      return R.chance(50) ? B.CreateUDiv(a, b) : B.CreateURem(a, b);
    }
    case 10:
    {
      if (w > 128 || w < 3)
        return B.CreateXor(a, b);
      b = B.CreateOr(B.CreateLShr(b, ConstantInt::get(t, 1)), ConstantInt::get(t, 1)); // odd and positive
      return R.chance(50) ? B.CreateSDiv(a, b) : B.CreateSRem(a, b);
    }
    }
  }
  Value * intr(Intrinsic::ID id, std::vector<Type *> ts, std::vector<Value *> as) { return B.CreateIntrinsic(id, ts, as); }
  Value * intIntr(Type * t, int d)
  {
    unsigned w = t->getScalarSizeInBits();
    auto a = expr(t, d - 1);
    bool legal = w == 8 || w == 16 || w == 32 || w == 64;
    switch (R.below(14))
    {
    case 0: return intr(Intrinsic::smax, { t }, { a, expr(t, d - 1) });
    case 1: return intr(Intrinsic::smin, { t }, { a, expr(t, d - 1) });
    case 2: return intr(Intrinsic::umax, { t }, { a, expr(t, d - 1) });
    case 3: return intr(Intrinsic::umin, { t }, { a, expr(t, d - 1) });
    case 4: return intr(Intrinsic::abs, { t }, { a, B.getInt1(false) });
    case 5: if (w % 16) return a; return intr(Intrinsic::bswap, { t }, { a });
    case 6: return intr(Intrinsic::ctpop, { t }, { a });
    case 7: return intr(Intrinsic::ctlz, { t }, { a, B.getInt1(false) });
    case 8: return intr(Intrinsic::cttz, { t }, { a, B.getInt1(false) });
    case 9: if (!legal) return a; return intr(Intrinsic::fshl, { t }, { a, expr(t, d - 1), expr(t, d - 1) });
    case 10:
    {
      if (!legal || t->isVectorTy())
        return a;
      static const Intrinsic::ID os[] = { Intrinsic::sadd_with_overflow, Intrinsic::uadd_with_overflow, Intrinsic::ssub_with_overflow,
                                          Intrinsic::smul_with_overflow, Intrinsic::umul_with_overflow };
      auto p = intr(os[R.below(5)], { t }, { a, expr(t, d - 1) });
      return R.chance(60) ? B.CreateExtractValue(p, { 0 }) : B.CreateZExt(B.CreateExtractValue(p, { 1 }), t);
    }
    case 11:
    {
      if (w == 1 || t->isVectorTy())
        return a;
      auto e = intr(Intrinsic::expect, { t }, { a, ConstantInt::get(t, 3) });
      return e;
    }
    default:
    {
      if (t->isVectorTy() || w != 64)
        return a;
      auto x = intr(Intrinsic::is_constant, { I64 }, { a });
      return B.CreateXor(a, B.CreateAnd(B.CreateZExt(x, I64), ConstantInt::get(I64, 0)));
    }
    }
  }
  Type * likeVec(Type * scalar, Type * t) { return t->isVectorTy() ? VectorType::get(scalar, cast<VectorType>(t)->getElementCount()) : scalar; }
  // some other type with the same shape (scalar or the same number of lanes)
  Type * otherShape(Type * t, bool fp)
  {
    if (t->isVectorTy())
    {
      Type * is[] = { I8, I16, I32, I64, I1 };
      Type * fs[] = { F32, F64 };
      return likeVec(fp ? fs[R.below(2)] : is[R.below(5)], t);
    }
    for (int k = 0; k < 4; k++)
    {
      auto & l = fp ? fps : ints;
      if (!l.empty())
        return R.pick(l);
    }
    return fp ? F64 : I32;
  }
  Value * cmp(Type * t, int d) // a value of i1 or a vector of i1 of t's shape
  {
    bool fp = R.chance(35);
    auto ot = otherShape(t, fp);
    if (fp)
    {
      auto p = (CmpInst::Predicate)R.range(CmpInst::FIRST_FCMP_PREDICATE, CmpInst::LAST_FCMP_PREDICATE);
      return B.CreateFCmp(p, expr(ot, d - 1), expr(ot, d - 1));
    }
    if (R.chance(8) && !t->isVectorTy())
    {
      auto o = otherShape(t, true);
      if (o != F80 && o != H)
        return B.CreateIntrinsic(Intrinsic::is_fpclass, { o }, { expr(o, d - 1), B.getInt32(R.pick(std::vector<int>{ 3, 4, 0x200, 0x208, 0x60, 0x90, 0x1f8 })) });
    }
    auto p = (CmpInst::Predicate)R.range(CmpInst::FIRST_ICMP_PREDICATE, CmpInst::LAST_ICMP_PREDICATE);
    return B.CreateICmp(p, expr(ot, d - 1), expr(ot, d - 1));
  }
  Value * select(Type * t, int d)
  {
    Value * c;
    if (t->isVectorTy() && R.chance(50))
      c = cmp(t, d - 1);
    else
      c = cmp(I32, d - 1);
    return B.CreateSelect(c, expr(t, d - 1), expr(t, d - 1));
  }
  Value * clampFp(Value * v, double lo, double hi) // not NaN, within [lo, hi]
  {
    auto t = v->getType();
    auto l = ConstantFP::get(t, lo), h = ConstantFP::get(t, hi);
    v = B.CreateSelect(B.CreateFCmpOGT(v, l), v, l);
    return B.CreateSelect(B.CreateFCmpOLT(v, h), v, h);
  }
  Value * fpExpr(Type * t, int d)
  {
    auto a = expr(t, d - 1);
    bool s80 = t->getScalarType() == F80;
    switch (R.below(18))
    {
    default: return B.CreateFAdd(a, expr(t, d - 1));
    case 0: return B.CreateFSub(a, expr(t, d - 1));
    case 1: return B.CreateFMul(a, expr(t, d - 1));
    case 2: return B.CreateFDiv(a, expr(t, d - 1));
    case 3: if (t->isVectorTy() || s80 || t == H) return a; return B.CreateFRem(a, expr(t, d - 1));
    case 4: return B.CreateFNeg(a);
    case 5: return intr(Intrinsic::fabs, { t }, { a });
    case 6: case 7:
    {
      static const Intrinsic::ID ids[] = { Intrinsic::ceil, Intrinsic::floor, Intrinsic::trunc, Intrinsic::rint, Intrinsic::round };
      if (s80)
        return a;
      return intr(ids[R.below(5)], { t }, { a });
    }
    case 8: if (s80) return a; return intr(Intrinsic::fmuladd, { t }, { a, expr(t, d - 1), expr(t, d - 1) });
    case 9:
    {
      auto it = likeVec(I32, t);
      if (s80)
        return a;
      return intr(Intrinsic::copysign, { t }, { a, B.CreateSIToFP(expr(it, d - 1), t) });
    }
    case 10: case 11:
    {
      auto it = otherShape(t, false);
      if (it->getScalarSizeInBits() > 64 || (it->getScalarSizeInBits() < 8 && it->isVectorTy()))
        return a;
      auto x = expr(it, d - 1);
      return R.chance(50) ? B.CreateSIToFP(x, t) : B.CreateUIToFP(x, t);
    }
    case 12: case 13:
    {
      auto ft = otherShape(t, true);
      auto x = expr(ft, d - 1);
      auto w1 = ft->getScalarSizeInBits(), w2 = t->getScalarSizeInBits();
      if (w1 == w2)
        return x->getType() == t ? x : a;
      return w1 < w2 ? B.CreateFPExt(x, t) : B.CreateFPTrunc(x, t);
    }
    case 14: return select(t, d);
    }
  }
  Value * vecExpr(Type * t, int d)
  {
    auto vt = cast<FixedVectorType>(t);
    auto e = vt->getElementType();
    unsigned n = vt->getNumElements();
    switch (R.below(12))
    {
    case 0: // insert
    {
      Value * idx = R.chance(60) || (n & (n - 1)) ? (Value *)B.getInt32(R.below(n)) : B.CreateAnd(expr(I32, d - 1), B.getInt32(n - 1));
      return B.CreateInsertElement(expr(t, d - 1), expr(e, d - 1), idx);
    }
    case 1: case 2: // shuffle
    {
      auto st = FixedVectorType::get(e, R.pick(std::vector<unsigned>{ 2, 3, 4, 8, n }));
      auto a = expr(st, d - 1), b = R.chance(30) ? (Value *)PoisonValue::get(st) : expr(st, d - 1);
      std::vector<int> mask;
      for (unsigned i = 0; i < n; i++)
        mask.push_back(R.below(isa<PoisonValue>(b) ? st->getNumElements() : 2 * st->getNumElements()));
      return B.CreateShuffleVector(a, b, mask);
    }
    case 3: // splat
    {
      auto x = B.CreateInsertElement(PoisonValue::get(t), expr(e, d - 1), B.getInt64(0));
      return B.CreateShuffleVector(x, PoisonValue::get(t), std::vector<int>(n, 0));
    }
    case 4: return select(t, d);
    case 5: // same bits, other lanes
      if (e->isIntegerTy() && e != I1 && (e->getIntegerBitWidth() * n) % 16 == 0 && e->getIntegerBitWidth() % 8 == 0)
      {
        auto w = e->getIntegerBitWidth() * n;
        if (R.chance(40) && w <= 128)
          return B.CreateBitCast(expr(IntegerType::get(C, w), d - 1), t);
        return B.CreateBitCast(expr(FixedVectorType::get(I16, w / 16), d - 1), t);
      }
      [[fallthrough]];
    default:
      if (e->isFloatingPointTy())
        return fpExpr(t, d);
      return intExpr(t, d);
    }
  }
  Value * intExpr(Type * t, int d)
  {
    unsigned w = t->getScalarSizeInBits();
    if (w == 1 && R.chance(60))
      return cmp(t, d);
    switch (R.below(14))
    {
    default: return intBin(t, d);
    case 0: case 1: return intIntr(t, d);
    case 2: case 3:
    {
      auto ot = otherShape(t, false);
      auto x = expr(ot, d - 1);
      auto w1 = ot->getScalarSizeInBits();
      if (w1 == w)
        return x->getType() == t ? x : intBin(t, d);
      if (w1 > w)
        return B.CreateTrunc(x, t);
      return R.chance(50) ? B.CreateZExt(x, t) : B.CreateSExt(x, t);
    }
    case 4: return select(t, d);
    case 5:
    {
      auto ft = otherShape(t, true);
      if (w < 8 || w > 64 || ft->getScalarType() == H || (w == 24 && t->isVectorTy()))
        return intBin(t, d);
      double hi = std::min(std::ldexp(1.0, (int)w - 1) - 1, 1e6);
      return R.chance(50) ? B.CreateFPToSI(clampFp(expr(ft, d - 1), -hi, hi), t) : B.CreateFPToUI(clampFp(expr(ft, d - 1), 0, hi), t);
    }
    case 6: return B.CreateFreeze(expr(t, d - 1));
    case 7:
      if (!t->isVectorTy())
      { // extract a lane
        auto vt = FixedVectorType::get(t, R.pick(std::vector<unsigned>{ 2, 4, 8 }));
        if (w > 64 || (w & (w - 1)))
          return intBin(t, d);
        auto n = vt->getNumElements();
        Value * idx = R.chance(60) ? (Value *)B.getInt32(R.below(n)) : B.CreateAnd(expr(I32, d - 1), B.getInt32(n - 1));
        return B.CreateExtractElement(expr(vt, d - 1), idx);
      }
      return intBin(t, d);
    case 8:
      if (t == I64 || t == I32)
      { // pointers as integers: only their difference is observable
        auto p = anyVar();
        auto a = B.CreatePtrToInt(p, I64);
        auto k = B.CreateAnd(expr(I64, d - 1), B.getInt64(0xff));
        Value * r;
        switch (R.below(3))
        {
        case 0: r = B.CreateSub(B.CreatePtrToInt(B.CreateGEP(I8, p, k), I64), a); break;
        case 1: r = B.CreateZExt(B.CreateICmpEQ(B.CreateIntToPtr(B.CreateAdd(a, k), PT), B.CreateGEP(I16, p, k)), I64); break;
        default:
        {
          auto q = B.CreateIntrinsic(Intrinsic::ptrmask, { PT, I64 }, { p, B.getInt64(-4) });
          r = B.CreateAnd(B.CreatePtrToInt(q, I64), B.getInt64(3));
        }
        }
        return t == I64 ? r : B.CreateTrunc(r, I32);
      }
      return intBin(t, d);
    case 9:
      if (!t->isVectorTy() && w <= 64 && w >= 8 && (w & (w - 1)) == 0)
      {
        auto vt = FixedVectorType::get(t, R.pick(std::vector<unsigned>{ 2, 4 }));
        static const Intrinsic::ID ids[] = { Intrinsic::vector_reduce_add, Intrinsic::vector_reduce_xor, Intrinsic::vector_reduce_or, Intrinsic::vector_reduce_and };
        return B.CreateIntrinsic(ids[R.below(4)], { vt }, { expr(vt, d - 1) });
      }
      return intBin(t, d);
    }
  }
  Value * aggExpr(Type * t, int d)
  {
    switch (R.below(4))
    {
    case 0: return select2(t, d);
    default:
    {
      auto a = expr(t, d - 1);
      unsigned i = R.below(nElems(t));
      auto et = elemOf(t, i);
      if (isAgg(et) && R.chance(60))
      {
        unsigned j = R.below(nElems(et));
        return B.CreateInsertValue(a, expr(elemOf(et, j), d - 1), { i, j });
      }
      return B.CreateInsertValue(a, expr(et, d - 1), { i });
    }
    case 1: return leaf(t);
    }
  }
  Value * select2(Type * t, int d) { return B.CreateSelect(cmp(I32, d - 1), expr(t, d - 1), expr(t, d - 1)); }
  Value * expr(Type * t, int d)
  {
    if (d <= 0 || R.chance(15))
      return leaf(t);
    if (!isAgg(t) && R.chance(8) && !aggs.empty())
    { // the element of an aggregate in a register
      for (auto a : aggs)
        for (unsigned i = 0; i < nElems(a); i++)
        {
          if (elemOf(a, i) == t)
            return B.CreateExtractValue(expr(a, d - 1), { i });
          if (isAgg(elemOf(a, i)))
            for (unsigned j = 0; j < nElems(elemOf(a, i)); j++)
              if (elemOf(elemOf(a, i), j) == t)
                return B.CreateExtractValue(expr(a, d - 1), { i, j });
        }
    }
    if (t->isIntegerTy())
      return intExpr(t, d);
    if (t->isFloatingPointTy())
      return fpExpr(t, d);
    if (t->isVectorTy())
      return vecExpr(t, d);
    if (isAgg(t))
      return aggExpr(t, d);
    return leaf(t);
  }
  Value * anyVar()
  {
    auto it = vars.begin();
    std::advance(it, R.below(vars.size()));
    return R.pick(it->second);
  }
  Type * poolType() { return R.pick(pool); }

  // ---------------------------------------------------------------- statements
  void assign()
  {
    auto t = poolType();
    auto v = expr(t, 3);
    auto p = R.pick(vars[t]);
    B.CreateStore(v, p);
    if (R.chance(25))
      log(B.CreateLoad(t, p));
  }
  // access a leaf of an aggregate in memory by a path of indices or by its byte offset
  void element()
  {
    if (aggs.empty())
      return assign();
    auto t = R.pick(aggs);
    Value * p = R.pick(vars[t]);
    auto & DL = M.getDataLayout();
    Type * cur = t;
    std::vector<Value *> idx{ R.chance(50) ? (Value *)B.getInt64(0) : B.getInt32(0) };
    uint64_t off = 0;
    while (isAgg(cur) && (idx.size() < 2 || R.chance(80)))
    {
      unsigned i = R.below(nElems(cur));
      if (cur->isStructTy())
      {
        off += DL.getStructLayout(cast<StructType>(cur))->getElementOffset(i);
        idx.push_back(B.getInt32(i));
      }
      else
      {
        off += i * DL.getTypeAllocSize(cur->getArrayElementType());
        if (R.chance(25))
        { // a computed index
          unsigned n = nElems(cur);
          Value * k = B.CreateURem(expr(I64, 1), B.getInt64(n));
          idx.push_back(R.chance(50) ? k : B.CreateTrunc(k, I32));
          off = ~0ull >> 1;
        }
        else
          idx.push_back(R.chance(50) ? (Value *)B.getInt64(i) : B.getInt32(i));
      }
      cur = elemOf(cur, i);
    }
    Value * q;
    if (off < 100000 && R.chance(35))
      q = R.chance(50) ? B.CreateInBoundsGEP(I8, p, B.getInt64(off)) : B.CreateGEP(I8, B.CreateGEP(I8, p, B.getInt64(off + 5)), B.getInt64(-5));
    else if (idx.size() > 2 && R.chance(30))
    { // in two steps
      q = B.CreateInBoundsGEP(t, p, { idx[0], idx[1] });
      auto et = t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(cast<ConstantInt>(idx[1])->getZExtValue());
      std::vector<Value *> rest{ B.getInt64(0) };
      rest.insert(rest.end(), idx.begin() + 2, idx.end());
      q = B.CreateInBoundsGEP(et, q, rest);
    }
    else
      q = B.CreateInBoundsGEP(t, p, idx);
    auto al = DL.getABITypeAlign(cur);
    // elements of packed structures are not aligned
    bool packed = false;
    std::function<void(Type *)> look = [&](Type * x)
    {
      if (auto s = dyn_cast<StructType>(x)) { packed |= s->isPacked(); for (auto e : s->elements()) look(e); }
      else if (x->isArrayTy()) look(x->getArrayElementType());
    };
    look(t);
    if (packed)
      al = Align(1);
    if (R.chance(50))
      B.CreateAlignedStore(expr(cur, 2), q, al);
    else
      log(B.CreateAlignedLoad(cur, q, al));
  }
  // differently sized accesses to the same bytes
  void bytes()
  {
    static const unsigned ws[] = { 8, 16, 32, 64, 24, 48, 128 };
    Value * base = raw;
    if (!imports.empty() && R.chance(20))
      base = R.pick(imports);
    auto acc = [&]() -> std::pair<Type *, Value *>
    {
      unsigned w = ws[R.below(7)];
      Type * t = IntegerType::get(C, w);
      if (R.chance(20) && w >= 32 && w % 16 == 0)
        t = FixedVectorType::get(w % 32 ? I8 : I16, w / (w % 32 ? 8 : 16));
      unsigned o = R.below(32 - w / 8 + 1);
      if (R.chance(60))
        o &= ~7u;
      return { t, B.CreateInBoundsGEP(I8, base, B.getInt64(o)) };
    };
    for (int i = R.range(1, 3); i > 0; i--)
    {
      auto [t, p] = acc();
      switch (R.below(6))
      {
      default: B.CreateAlignedStore(expr(t, 2), p, Align(1), R.chance(5)); break;
      case 0: B.CreateMemSet(B.CreateInBoundsGEP(I8, base, B.getInt64(R.below(16))), R.chance(50) ? (Value *)B.getInt8(R.below(3)) : expr(I8, 1),
                             R.chance(50) ? (Value *)B.getInt64(R.below(17)) : B.CreateAnd(expr(I64, 1), B.getInt64(15)), Align(1)); break;
      case 1: B.CreateMemMove(B.CreateInBoundsGEP(I8, base, B.getInt64(R.below(16))), Align(1),
                              B.CreateInBoundsGEP(I8, R.chance(50) ? (Value *)raw : base, B.getInt64(R.below(16))), Align(1),
                              R.chance(50) ? (Value *)B.getInt64(R.below(17)) : B.CreateAnd(expr(I64, 1), B.getInt64(15))); break;
      }
      auto [t2, p2] = acc();
      log(B.CreateAlignedLoad(t2, p2, Align(1), R.chance(5)));
    }
  }
  void call()
  {
    if (fns.empty())
      return assign();
    auto f = R.pick(fns);
    std::vector<Value *> as;
    for (auto & a : f->args())
    {
      if (a.hasByValAttr())
        as.push_back(R.pick(vars[a.getParamByValType()]));
      else if (a.hasStructRetAttr())
        as.push_back(R.pick(vars[a.getParamStructRetType()]));
      else if (a.getType()->isPointerTy())
        as.push_back(R.pick(vars[I64]));
      else
        as.push_back(expr(a.getType(), 2));
    }
    if (f->isVarArg())
    {
      auto n = R.range(0, 5);
      as[0] = B.getInt32(n);
      for (int i = 0; i < n; i++)
        as.push_back(R.chance(70) ? expr(I64, 2) : (Value *)B.CreatePtrToInt(Constant::getNullValue(PT), I64));
    }
    auto r = B.CreateCall(f, as);
    r->setCallingConv(f->getCallingConv());
    for (auto & a : f->args())
      if (a.hasByValAttr())
        r->addParamAttr(a.getArgNo(), Attribute::getWithByValType(C, a.getParamByValType()));
      else if (a.hasStructRetAttr())
        r->addParamAttr(a.getArgNo(), Attribute::getWithStructRetType(C, a.getParamStructRetType()));
    if (!f->getReturnType()->isVoidTy() && R.chance(80))
    {
      auto it = vars.find(f->getReturnType());
      if (it != vars.end() && R.chance(60))
        B.CreateStore(r, R.pick(it->second));
      else
        log(r);
    }
    if (R.chance(30))
      log(B.CreateLoad(I64, R.pick(vars[I64])));
  }
  void tableCall()
  {
    if (!fnTable)
      return call();
    auto t = cast<ArrayType>(fnTable->getValueType());
    auto k = B.CreateURem(expr(I64, 1), B.getInt64(t->getNumElements()));
    auto p = B.CreateLoad(PT, B.CreateInBoundsGEP(t, fnTable, { B.getInt64(0), k }));
    log(B.CreateCall(FunctionType::get(I64, { I64, I64 }, false), p, { expr(I64, 1), expr(I64, 1) }));
  }
  void globalStmt()
  {
    if (globs.empty())
      return assign();
    auto g = R.pick(R.chance(70) ? globs : consts);
    auto t = g->getValueType();
    if (g->isConstant() || R.chance(50))
      log(B.CreateLoad(t, g));
    else
    {
      Value * v = vars.count(t) ? expr(t, 2) : (Value *)constant(t);
      B.CreateStore(v, g);
    }
  }
  void branch(const std::function<void()> & body)
  {
    auto c = cmp(I32, 2);
    auto t = bb("t"), e = bb("e"), j = bb("j");
    B.CreateCondBr(c, t, e);
    B.SetInsertPoint(t);
    body();
    B.CreateBr(j);
    B.SetInsertPoint(e);
    if (R.chance(50))
      body();
    B.CreateBr(j);
    B.SetInsertPoint(j);
  }
  void switchStmt()
  {
    std::vector<IntegerType *> cs;
    for (auto t : ints)
      if (t->getIntegerBitWidth() <= 64)
        cs.push_back(cast<IntegerType>(t));
    auto t = cs.empty() ? cast<IntegerType>(I32) : R.pick(cs);
    auto v = expr(t, 2);
    if (t->getBitWidth() > 3 && R.chance(70))
      v = B.CreateAnd(v, ConstantInt::get(t, 7));
    auto j = bb("sj");
    std::vector<BasicBlock *> targets;
    for (int i = R.range(1, 4); i > 0; i--)
      targets.push_back(bb("sc"));
    auto def = R.chance(30) ? targets[0] : R.chance(40) ? j : bb("sd");
    auto s = B.CreateSwitch(v, def);
    std::set<uint64_t> used;
    for (int i = R.range(1, 9); i > 0; i--)
    {
      APInt k(t->getBitWidth(), R.chance(85) ? R.below(9) : R.next());
      if (R.chance(10))
        k = -k;
      if (used.insert(k.getZExtValue()).second)
        s->addCase(ConstantInt::get(C, k), R.chance(12) ? j : R.pick(targets));
    }
    auto fill = [&](BasicBlock * b)
    {
      B.SetInsertPoint(b);
      block(R.range(1, 2));
      B.CreateBr(j);
    };
    for (auto b : targets)
    {
      if (pred_empty(b))
      {
        B.SetInsertPoint(b);
        B.CreateUnreachable();
        continue;
      }
      fill(b);
    }
    if (def != j && def != targets[0])
      fill(def);
    B.SetInsertPoint(j);
  }
  void loop()
  {
    auto n = R.range(1, 5);
    auto iT = R.chance(50) ? I32 : I64;
    auto iv = entryAlloca(iT);
    B.CreateStore(ConstantInt::get(iT, 0), iv);
    auto h = bb("lh"), b = bb("lb"), x = bb("lx");
    B.CreateBr(h);
    bool tail = R.chance(50);
    B.SetInsertPoint(h);
    if (tail)
      B.CreateBr(b);
    else
      B.CreateCondBr(B.CreateICmpSLT(B.CreateLoad(iT, iv), ConstantInt::get(iT, n)), b, x);
    B.SetInsertPoint(b);
    block(R.range(1, 3));
    auto nx = B.CreateAdd(B.CreateLoad(iT, iv), ConstantInt::get(iT, 1));
    B.CreateStore(nx, iv);
    if (tail)
      B.CreateCondBr(B.CreateICmpSLT(nx, ConstantInt::get(iT, n)), h, x);
    else
      B.CreateBr(h);
    B.SetInsertPoint(x);
  }
  // variables handing their values on from one iteration to the next
  void chain()
  {
    auto t = R.chance(70) || vecs.empty() ? (R.chance(50) ? I64 : I32) : R.pick(vecs);
    int k = R.range(2, 9);
    std::vector<PHINode *> ps;
    auto start = expr(t, 1), other = expr(t, 1);
    auto pre = B.GetInsertBlock();
    auto b = bb("cb"), x = bb("cx");
    B.CreateBr(b);
    B.SetInsertPoint(b);
    auto i = B.CreatePHI(I32, 2);
    i->addIncoming(B.getInt32(0), pre);
    std::set<int> odd;
    if (R.chance(40))
      odd.insert(R.below(k));
    for (int q = 0; q < k; q++)
    {
      auto p = B.CreatePHI(t, 2);
      p->addIncoming(odd.count(q) ? other : start, pre);
      ps.push_back(p);
    }
    int mode = R.below(4);
    if (R.chance(70))
      for (auto p : ps)
        if (R.chance(40))
          log(p);
    std::vector<Value *> next;
    Value * fresh = nullptr;
    for (int q = 0; q < k; q++)
    {
      Value * v = nullptr;
      if (q + 1 < k)
        v = mode == 0 && q % 3 == 2 ? ps[q] : mode == 1 && q ? ps[q - 1] : mode == 2 ? (Value *)ps[(q * 5 + 2) % k] : ps[q + 1];
      else
        v = mode == 2 && R.chance(50) ? (Value *)ps[0] : fresh;
      if (!v)
      {
        auto f = t->isVectorTy() ? (t->isFPOrFPVectorTy() ? B.CreateFNeg(ps[q]) : B.CreateNot(ps[q]))
                                 : R.chance(50) ? B.CreateAdd(ps[q], ConstantInt::get(t, 3)) : B.CreateXor(B.CreateZExtOrTrunc(i, t), ps[R.below(k)]);
        v = f;
      }
      next.push_back(v);
    }
    auto ni = B.CreateAdd(i, B.getInt32(1));
    auto last = B.GetInsertBlock();
    i->addIncoming(ni, last);
    for (int q = 0; q < k; q++)
      ps[q]->addIncoming(next[q], last);
    B.CreateCondBr(B.CreateICmpULT(ni, B.getInt32(R.range(1, k + 3))), b, x);
    B.SetInsertPoint(x);
    for (int q = 0; q < k; q++)
      if (R.chance(60))
        log(R.chance(50) ? (Value *)ps[q] : next[q]);
  }
  // a value that reaches a join along several edges
  void join()
  {
    auto t = poolType();
    auto a = expr(t, 2), b = expr(t, 2);
    auto c = cmp(I32, 1);
    auto l = bb("jl"), r = bb("jr"), j = bb("jj");
    B.CreateCondBr(c, l, r);
    B.SetInsertPoint(l);
    Value * v1 = R.chance(50) ? a : expr(t, 1);
    B.CreateBr(j);
    auto l2 = B.GetInsertBlock();
    B.SetInsertPoint(r);
    Value * v2 = R.chance(50) ? b : expr(t, 1);
    B.CreateBr(j);
    auto r2 = B.GetInsertBlock();
    B.SetInsertPoint(j);
    auto p = B.CreatePHI(t, 2);
    p->addIncoming(v1, l2);
    p->addIncoming(v2, r2);
    if (R.chance(50))
      log(p);
    B.CreateStore(p, R.pick(vars[t]));
  }
  void misc()
  {
    switch (R.below(5))
    {
    case 0: B.CreateAssumption(B.CreateICmpEQ(B.getInt32(1), B.getInt32(1))); break;
    case 1: B.CreateIntrinsic(Intrinsic::prefetch, { PT }, { anyVar(), B.getInt32(R.below(2)), B.getInt32(R.below(4)), B.getInt32(1) }); break;
    case 2:
    {
      auto a = entryAlloca(I64);
      B.CreateLifetimeStart(a, B.getInt64(8));
      B.CreateStore(expr(I64, 2), a);
      log(B.CreateLoad(I64, a));
      B.CreateLifetimeEnd(a, B.getInt64(8));
      break;
    }
    case 3:
      B.CreateCall(ext("ext_poke", V, { PT, I32, I32 }), { raw, B.getInt32(R.range(1, 32)), B.getInt32(R.below(50)) });
      break;
    case 4:
      B.CreateCall(ext("ext_peek", V, { PT, I32 }), { raw, B.getInt32(R.range(1, 32)) });
      break;
    }
  }
  void stmt()
  {
    if (--budget < 0)
      return;
    switch (R.below(depth < 3 ? 20 : 14))
    {
    default: assign(); break;
    case 3: case 4: element(); break;
    case 5: case 6: bytes(); break;
    case 7: case 8: call(); break;
    case 9: tableCall(); break;
    case 10: globalStmt(); break;
    case 11: misc(); break;
    case 12: log(expr(poolType(), 3)); break;
    case 14: case 15: depth++; branch([&] { block(R.range(1, 2)); }); depth--; break;
    case 16: depth++; switchStmt(); depth--; break;
    case 17: depth++; loop(); depth--; break;
    case 18: chain(); break;
    case 19: join(); break;
    }
  }
  void block(int n) { for (int i = 0; i < n; i++) stmt(); }

  void startFunction(Function * f)
  {
    F = f;
    vars.clear();
    auto e = bb("entry");
    B.SetInsertPoint(e);
    auto body = bb("body");
    B.SetInsertPoint(body);
    for (auto t : pool)
      for (int i = R.range(1, 2); i > 0; i--)
      {
        auto a = entryAlloca(t);
        B.CreateStore(constant(t), a);
        vars[t].push_back(a);
      }
    raw = entryAlloca(ArrayType::get(I8, 32));
    raw->setAlignment(Align(16));
    if (R.chance(50))
      B.CreateMemSet(raw, B.getInt8(R.below(256)), 32, Align(1));
    else
      for (int i = 0; i < 4; i++)
        B.CreateStore(B.getInt64(R.next()), B.CreateInBoundsGEP(I64, raw, B.getInt64(i)));
    for (auto & a : f->args())
    {
      if (a.hasByValAttr() || a.hasStructRetAttr())
      {
        auto t = a.hasByValAttr() ? a.getParamByValType() : a.getParamStructRetType();
        vars[t].push_back(&a);
      }
      else if (a.getType()->isPointerTy())
        vars[I64].push_back(&a);
      else if (vars.count(a.getType()))
        B.CreateStore(&a, vars[a.getType()][0]);
    }
  }
  void endFunction(Value * ret)
  {
    if (ret)
      B.CreateRet(ret);
    else
      B.CreateRetVoid();
    IRBuilder<NoFolder> b(&F->getEntryBlock());
    b.CreateBr(F->getEntryBlock().getNextNode());
  }
  GlobalValue::LinkageTypes link() { return R.chance(50) ? GlobalValue::InternalLinkage : GlobalValue::ExternalLinkage; }

  void run()
  {
    M.setTargetTriple("x86_64-unknown-linux-gnu");
    M.setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
    // the types of this program
    std::set<Type *> chosen{ I32, I64 };
    for (int i = R.range(1, 3); i > 0; i--) chosen.insert(randInt());
    for (int i = R.range(0, 2); i > 0; i--) chosen.insert(randFp());
    for (int i = R.range(0, 2); i > 0; i--) chosen.insert(randVec());
    std::vector<Type *> ordered;
    for (auto t : { I32, I64 }) ordered.push_back(t);
    for (int i = R.range(1, 3); i > 0; i--) ordered.push_back(randInt());
    for (int i = R.range(0, 2); i > 0; i--) ordered.push_back(randFp());
    for (int i = R.range(0, 2); i > 0; i--) ordered.push_back(randVec());
    for (int i = R.range(0, 2); i > 0; i--) ordered.push_back(randAgg(2));
    for (auto t : ordered)
    {
      bool dup = false;
      for (auto q : pool) dup |= q == t;
      if (dup)
        continue;
      pool.push_back(t);
      if (t->isIntegerTy()) ints.push_back(t);
      else if (t->isFloatingPointTy()) fps.push_back(t);
      else if (t->isVectorTy()) vecs.push_back(t);
      else aggs.push_back(t);
    }
    for (int i = R.range(1, 3); i > 0; i--)
    {
      auto t = R.chance(60) ? poolType() : R.chance(60) ? randAgg(2) : ArrayType::get(R.chance(50) ? randFp() : randInt(), R.range(1, 5));
      auto g = new GlobalVariable(M, t, true, link(), constant(t), "k" + std::to_string(i));
      if (R.chance(30))
        g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
      consts.push_back(g);
    }
    for (int i = R.range(1, 3); i > 0; i--)
    {
      auto t = R.chance(70) ? poolType() : randAgg(1);
      globs.push_back(new GlobalVariable(M, t, false, link(), constant(t), "g" + std::to_string(i)));
    }
    if (R.chance(50))
    {
      imports.push_back(new GlobalVariable(M, ArrayType::get(I8, 32), false, GlobalValue::ExternalLinkage, nullptr, "vh_ext0"));
      if (R.chance(50))
        imports.push_back(new GlobalVariable(M, StructType::get(C, { I64, I64, I64, I64 }), false, GlobalValue::ExternalLinkage, nullptr, "vh_ext1"));
    }
    if (R.chance(60))
    { // functions reached through a table
      std::vector<Constant *> fs;
      for (int i = R.range(1, 4); i > 0; i--)
      {
        auto f = Function::Create(FunctionType::get(I64, { I64, I64 }, false), link(), "tf" + std::to_string(i), M);
        startFunction(f);
        budget = R.range(1, 4);
        block(3);
        endFunction(B.CreateXor(B.CreateMul(f->getArg(0), B.getInt64(i + 2)), expr(I64, 2)));
        for (int k = R.range(1, 2); k > 0; k--)
          fs.push_back(f);
      }
      auto t = ArrayType::get(PT, fs.size());
      fnTable = new GlobalVariable(M, t, R.chance(60), link(), ConstantArray::get(t, fs), "ftab");
    }
    auto nf = R.range(1, 4);
    std::vector<Type *> pass; // types handed by value between functions
    for (auto t : pool)
    {
      bool big = M.getDataLayout().getTypeAllocSize(t) > 64;
      if (!big)
        pass.push_back(t);
    }
    for (int i = 0; i < nf; i++)
    {
      if (R.chance(12))
      { // a variadic function handing its list to somebody else
        auto f = Function::Create(FunctionType::get(I64, { I32 }, true), link(), "va" + std::to_string(i), M);
        startFunction(f);
        budget = R.range(1, 3);
        block(2);
        auto lt = StructType::get(C, { I32, I32, PT, PT });
        auto l = entryAlloca(lt);
        Value * r = B.getInt64(0);
        for (int k = R.range(1, 2); k > 0; k--)
        {
          B.CreateIntrinsic(Intrinsic::vastart, {}, { l });
          r = B.CreateXor(r, B.CreateCall(ext("ext_vsum", I64, { I32, PT }), { f->getArg(0), l }));
          B.CreateIntrinsic(Intrinsic::vaend, {}, { l });
        }
        endFunction(B.CreateXor(r, expr(I64, 1)));
        fns.push_back(f);
        continue;
      }
      std::vector<Type *> ps;
      std::vector<std::pair<unsigned, Attribute>> attrs;
      Type * rt = R.chance(15) ? V : R.pick(pass);
      if (rt->isVoidTy() && !aggs.empty() && R.chance(70))
      {
        ps.push_back(PT);
        attrs.push_back({ 0, Attribute::getWithStructRetType(C, R.pick(aggs)) });
      }
      for (int k = R.range(0, 4); k > 0; k--)
      {
        if (!aggs.empty() && R.chance(15))
        {
          attrs.push_back({ (unsigned)ps.size(), Attribute::getWithByValType(C, R.pick(aggs)) });
          ps.push_back(PT);
        }
        else if (R.chance(10))
          ps.push_back(PT);
        else
          ps.push_back(R.pick(pass));
      }
      auto f = Function::Create(FunctionType::get(rt, ps, false), link(), "f" + std::to_string(i), M);
      for (auto & [k, a] : attrs)
        f->addParamAttr(k, a);
      // LLVM miscompiles cold functions that return values in vector registers (they are taken for preserved)
      if (f->hasInternalLinkage() && R.chance(20) && (rt->isVoidTy() || (rt->isIntegerTy() && rt->getIntegerBitWidth() <= 64)))
        f->setCallingConv(R.chance(50) ? CallingConv::Fast : CallingConv::Cold);
      startFunction(f);
      budget = R.range(3, 12);
      block(R.range(2, 6));
      endFunction(rt->isVoidTy() ? nullptr : expr(rt, 2));
      fns.push_back(f);
    }
    auto m = Function::Create(FunctionType::get(I32, {}, false), GlobalValue::ExternalLinkage, "vh_main", M);
    startFunction(m);
    budget = R.range(8, 18);
    block(R.range(5, 9));
    for (auto f : std::vector<Function *>(fns))
    {
      auto keep = fns;
      fns = { f };
      call();
      fns = keep;
    }
    for (auto & t : pool)
      for (auto p : vars[t])
        log(B.CreateLoad(t, p));
    for (auto g : globs)
      log(B.CreateLoad(g->getValueType(), g));
    for (auto g : imports)
      B.CreateCall(ext("ext_peek", V, { PT, I32 }), { g, B.getInt32(32) });
    endFunction(expr(I32, 1));
  }
};
}
std::unique_ptr<Module> generateOps(LLVMContext & ctx, uint64_t seed)
{
  auto m = std::make_unique<Module>("ops", ctx);
  Ops o(ctx, *m, seed);
  o.run();
  return m;
}
}
