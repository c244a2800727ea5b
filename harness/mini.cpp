// Small, dense programs: many independent little functions, each exercising one kind of structure.
#include "common.hpp"
#include <algorithm>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/NoFolder.h>
#include <llvm/IR/Module.h>
using namespace llvm;
namespace vh
{
namespace
{
struct Mini
{
  LLVMContext & C;
  Module & M;
  Rng R;
  IRBuilder<NoFolder> B;
  std::string flavor;
  Type *I1, *I8, *I16, *I32, *I64, *V;
  PointerType * PT;
  std::vector<GlobalVariable *> bufG;
  GlobalVariable * roG = nullptr;
  std::vector<Function *> fns;
  Function * F = nullptr;
  std::vector<AllocaInst *> vars, narrow;
  std::vector<Value *> ptrs; // objects with at least 32 accessible bytes
  std::vector<Value *> invariants;
  int depth = 0, loopDepth = 0, budget = 0, evId = 0;
  BasicBlock * breakBB = nullptr, * contBB = nullptr;

  Mini(LLVMContext & c, Module & m, uint64_t seed, const std::string & fl) : C(c), M(m), R(seed), B(c), flavor(fl)
  {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I16 = Type::getInt16Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    V = Type::getVoidTy(C);
    PT = PointerType::get(C, 0);
  }
  BasicBlock * bb(const char * n) { return BasicBlock::Create(C, n, F); }
  AllocaInst * entryAlloca(Type * t)
  {
    IRBuilder<NoFolder> b(&F->getEntryBlock(), F->getEntryBlock().begin());
    return b.CreateAlloca(t);
  }
  FunctionCallee ext(const char * n, Type * r, std::vector<Type *> ps) { return M.getOrInsertFunction(n, FunctionType::get(r, ps, false)); }
  void ev(Value * v) { B.CreateCall(ext("ext_i64", V, { I32, I64 }), { B.getInt32(evId++ % 1000), v }); }
  Value * var() { return B.CreateLoad(I64, R.pick(vars)); }
  Value * leaf()
  {
    if (R.chance(30))
      return B.getInt64(R.chance(60) ? R.range(-3, 9) : (int64_t)R.next());
    if (!invariants.empty() && R.chance(25))
      return R.pick(invariants);
    return var();
  }
  Value * expr(int d)
  {
    if (d <= 0)
      return leaf();
    switch (R.below(16))
    {
    default: return leaf();
    case 0: case 1: case 2: return B.CreateAdd(expr(d - 1), expr(d - 1));
    case 3: return B.CreateSub(expr(d - 1), expr(d - 1));
    case 4: case 5: return B.CreateMul(expr(d - 1), expr(d - 1));
    case 6: return B.CreateXor(expr(d - 1), expr(d - 1));
    case 7: return B.CreateAnd(expr(d - 1), expr(d - 1));
    case 8: return B.CreateOr(expr(d - 1), expr(d - 1));
    case 9: return B.CreateShl(expr(d - 1), B.CreateAnd(leaf(), B.getInt64(63)));
    case 10: return R.chance(50) ? B.CreateLShr(expr(d - 1), B.CreateAnd(leaf(), B.getInt64(63)))
                                 : B.CreateAShr(expr(d - 1), B.CreateAnd(leaf(), B.getInt64(63)));
    case 11: return B.CreateSelect(cond(d - 1), expr(d - 1), expr(d - 1));
    case 12:
    { // narrow arithmetic
      static const unsigned ws[] = { 8, 16, 32, 1, 33, 7 };
      auto t = IntegerType::get(C, ws[R.below(6)]);
      auto a = B.CreateTrunc(expr(d - 1), t), b = B.CreateTrunc(expr(d - 1), t);
      Value * r = R.chance(50) ? B.CreateAdd(a, b) : R.chance(50) ? B.CreateMul(a, b) : B.CreateSub(a, b);
      return R.chance(50) ? B.CreateZExt(r, I64) : B.CreateSExt(r, I64);
    }
    case 13:
    {
      auto x = expr(d - 1), y = B.CreateOr(expr(d - 1), B.getInt64(1));
      if (R.chance(50))
        return R.chance(50) ? B.CreateUDiv(x, y) : B.CreateURem(x, y);
      y = B.CreateAnd(y, B.getInt64(0x7fff)); // odd and positive: never 0, never -1
      y = B.CreateOr(y, B.getInt64(1));
      return R.chance(50) ? B.CreateSDiv(x, y) : B.CreateSRem(x, y);
    }
    case 14: return B.CreateZExt(cond(d - 1), I64);
    }
  }
  std::vector<AllocaInst *> flags; // conditions computed earlier
  size_t ownFlags = 0;             // of these, the ones that may be overwritten
  Value * cond(int d)
  {
    if (!flags.empty() && R.chance(35))
      return B.CreateLoad(I1, R.pick(flags));
    static const CmpInst::Predicate ps[] = { CmpInst::ICMP_EQ, CmpInst::ICMP_NE, CmpInst::ICMP_ULT, CmpInst::ICMP_UGT, CmpInst::ICMP_ULE,
                                             CmpInst::ICMP_UGE, CmpInst::ICMP_SLT, CmpInst::ICMP_SGT, CmpInst::ICMP_SLE, CmpInst::ICMP_SGE };
    switch (R.below(6))
    {
    default: return B.CreateICmp(ps[R.below(10)], expr(d - 1), expr(d - 1));
    case 0: return B.CreateTrunc(B.CreateLShr(expr(d - 1), B.getInt64(R.below(8))), I1);
    case 1: return B.CreateICmp(ps[R.below(10)], B.CreateTrunc(expr(d - 1), I8), B.CreateTrunc(expr(d - 1), I8));
    }
  }
  int focus = -1;      // >= 0: all accesses go to few locations, and only one kind of operation modifies memory
  unsigned focusW = 32;
  Value * focusPtr = nullptr;
  // a memory location: width and address
  Value * addr(unsigned & w)
  {
    if (focus >= 0 && R.chance(85))
    {
      w = focusW;
      return R.chance(75) ? focusPtr : B.CreateInBoundsGEP(IntegerType::get(C, w), focusPtr, B.getInt64(1));
    }
    static const unsigned ws[] = { 8, 16, 32, 64 };
    w = R.chance(60) ? 32 : ws[R.below(4)];
    auto o = R.pick(ptrs);
    unsigned n = 32 / (w / 8);
    if (R.chance(35))
      return o;
    if (R.chance(50))
      return B.CreateInBoundsGEP(IntegerType::get(C, w), o, B.getInt64(R.below(R.chance(70) ? 2 : n)));
    if (R.chance(70))
      return B.CreateInBoundsGEP(IntegerType::get(C, w), o, B.CreateAnd(leaf(), B.getInt64(n - 1)));
    return B.CreateSelect(cond(1), o, R.pick(ptrs));
  }
  void load()
  {
    unsigned w;
    auto a = addr(w);
    Value * l = B.CreateLoad(IntegerType::get(C, w), a);
    if (w < 64)
      l = R.chance(50) ? B.CreateZExt(l, I64) : B.CreateSExt(l, I64);
    auto v = R.pick(vars);
    B.CreateStore(B.CreateAdd(B.CreateMul(B.CreateLoad(I64, v), B.getInt64(31)), l), v);
  }
  void store()
  {
    unsigned w;
    auto a = addr(w);
    auto v = expr(1);
    B.CreateStore(w < 64 ? B.CreateTrunc(v, IntegerType::get(C, w)) : v, a);
  }
  void memop()
  {
    auto p = R.pick(ptrs), q = R.pick(ptrs);
    switch (R.below(5))
    {
    case 0: case 1: B.CreateMemSet(p, R.chance(50) ? B.getInt8(R.below(4)) : B.CreateTrunc(var(), I8), B.getInt64(R.range(1, 32)), MaybeAlign(1)); break;
    case 2: B.CreateMemCpy(p, MaybeAlign(1), roG, MaybeAlign(1), B.getInt64(R.range(1, 32))); break;
    case 3: B.CreateMemMove(p, MaybeAlign(1), q, MaybeAlign(1), B.getInt64(R.range(1, 32))); break;
    case 4: B.CreateMemCpy(p, MaybeAlign(1), roG, MaybeAlign(1), B.CreateAnd(var(), B.getInt64(31))); break;
    }
  }
  void extop()
  {
    switch (R.below(5))
    {
    case 0: B.CreateCall(ext("ext_poke", V, { PT, I32, I32 }), { R.pick(ptrs), B.getInt32(8 << R.below(3)), B.getInt32(R.below(100)) }); break;
    case 1: case 2: B.CreateCall(ext("ext_peek", V, { PT, I32 }), { R.pick(ptrs), B.getInt32(8 << R.below(3)) }); break;
    case 3: ev(expr(1)); break;
    case 4: B.CreateStore(B.CreateZExt(B.CreateCall(ext("ext_i32", I32, { I32, I32 }), { B.getInt32(R.below(50)), B.CreateTrunc(var(), I32) }), I64), R.pick(vars)); break;
    }
  }
  void assign() { auto e = expr(R.range(1, 3)); B.CreateStore(e, R.pick(vars)); }
  void callOther()
  {
    if (fns.empty())
      return assign();
    auto f = R.pick(fns);
    auto r = B.CreateCall(f, { leaf(), leaf(), R.pick(ptrs), R.pick(ptrs) });
    B.CreateStore(r, R.pick(vars));
  }
  void ifElse()
  {
    auto c = cond(2);
    auto t = bb("t"), e = bb("j");
    auto f = R.chance(50) ? bb("f") : e;
    B.CreateCondBr(c, t, f);
    depth++;
    B.SetInsertPoint(t);
    seq(R.range(1, 3));
    bool jumped = loopDepth && R.chance(10);
    B.CreateBr(jumped ? (R.chance(50) ? breakBB : contBB) : e);
    if (f != e)
    {
      B.SetInsertPoint(f);
      seq(R.range(1, 3));
      B.CreateBr(e);
    }
    depth--;
    B.SetInsertPoint(e);
    if (R.chance(25)) // the same condition again
    {
      auto t2 = bb("t2"), e2 = bb("j2");
      B.CreateCondBr(c, t2, e2);
      depth++;
      B.SetInsertPoint(t2);
      seq(1);
      B.CreateBr(e2);
      depth--;
      B.SetInsertPoint(e2);
    }
  }
  void switchStmt()
  {
    auto e = bb("sj"), d = R.chance(70) ? bb("sd") : e;
    static const unsigned ws[] = { 8, 32, 64, 3 };
    auto t = IntegerType::get(C, ws[R.below(4)]);
    auto v = B.CreateAnd(expr(1), B.getInt64(7));
    auto s = B.CreateSwitch(t->getBitWidth() == 64 ? v : B.CreateTrunc(v, t), d);
    std::vector<BasicBlock *> cs;
    int n = R.range(1, 4);
    for (int i = 0; i < n; i++)
      cs.push_back(bb("sc"));
    std::set<uint64_t> used;
    for (int i = 0; i < n + 2; i++)
    {
      uint64_t k = R.below(8);
      if (used.insert(k).second)
        s->addCase(ConstantInt::get(t, k), cs[i < n ? i : R.below(n)]);
    }
    depth++;
    for (int i = 0; i < n; i++)
    {
      B.SetInsertPoint(cs[i]);
      if (R.chance(80))
        seq(R.range(1, 2));
      B.CreateBr(R.chance(20) && i + 1 < n ? cs[i + 1] : e);
    }
    if (d != e)
    {
      B.SetInsertPoint(d);
      seq(1);
      B.CreateBr(e);
    }
    depth--;
    B.SetInsertPoint(e);
    // blocks nobody jumps to are removed by the verifier-friendly cleanup below
  }
  void loop()
  {
    static const unsigned ws[] = { 32, 64, 64, 8 };
    auto t = IntegerType::get(C, ws[R.below(4)]);
    auto iv = entryAlloca(t);
    bool down = R.chance(20), wh = R.chance(40);
    int step = R.chance(70) ? 1 : R.range(1, 3), trips = R.range(1, 5);
    int start = R.range(-2, 3);
    B.CreateStore(ConstantInt::getSigned(t, start), iv);
    auto h = bb("h"), x = bb("x"), body = wh ? bb("b") : h, latch = bb("l");
    auto limit = ConstantInt::getSigned(t, start + (down ? -1 : 1) * step * trips);
    Value * lim = limit;
    B.CreateBr(h);
    B.SetInsertPoint(h);
    auto sbb = breakBB, scb = contBB;
    breakBB = x;
    contBB = latch;
    if (wh)
    {
      B.CreateCondBr(B.CreateICmpNE(B.CreateLoad(t, iv), lim), body, x);
      B.SetInsertPoint(body);
    }
    depth++;
    loopDepth++;
    AllocaInst * early = nullptr;
    if (!wh && R.chance(40))
    { // the condition to leave the loop is known at its start
      auto n = B.CreateAdd(B.CreateLoad(t, iv), ConstantInt::getSigned(t, down ? -step : step));
      auto c = B.CreateICmp(R.chance(50) ? CmpInst::ICMP_EQ : down ? CmpInst::ICMP_SLE : CmpInst::ICMP_SGE, n, lim);
      early = entryAlloca(I1);
      B.CreateStore(c, early);
      flags.push_back(early);
    }
    if (flavor == "mloop" || (focus < 0 && R.chance(40)))
    { // uses of the induction variable
      Value * i = B.CreateLoad(t, iv);
      Value * e = t == I64 ? i : R.chance(50) ? B.CreateSExt(i, I64) : B.CreateZExt(i, I64);
      Value * inv = leaf();
      if (R.chance(50))
        e = B.CreateMul(e, inv);
      if (R.chance(40))
        e = B.CreateAdd(e, leaf());
      auto v = R.pick(vars);
      B.CreateStore(R.chance(50) ? e : B.CreateAdd(B.CreateLoad(I64, v), e), v);
    }
    seq(R.range(1, focus >= 0 ? 2 : 3));
    loopDepth--;
    depth--;
    if (early)
      flags.erase(std::find(flags.begin(), flags.end(), early));
    B.CreateBr(latch);
    B.SetInsertPoint(latch);
    auto n = B.CreateAdd(B.CreateLoad(t, iv), ConstantInt::getSigned(t, down ? -step : step));
    B.CreateStore(n, iv);
    if (wh)
      B.CreateBr(h);
    else if (early)
      B.CreateCondBr(B.CreateLoad(I1, early), x, h);
    else
      B.CreateCondBr(R.chance(50) ? B.CreateICmpEQ(n, lim) : down ? B.CreateICmpSLE(n, lim) : B.CreateICmpSGE(n, lim), x, h);
    B.SetInsertPoint(x);
    breakBB = sbb;
    contBB = scb;
  }
  void simple()
  {
    int k = R.below(100);
    if (focus >= 0)
    {
      if (k < 55)
        return load();
      switch (focus)
      {
      case 0: return store();
      case 1: B.CreateMemSet(focusPtr, B.CreateTrunc(var(), I8), B.getInt64(R.range(1, 16)), MaybeAlign(1)); return;
      case 2: B.CreateMemCpy(focusPtr, MaybeAlign(1), roG, MaybeAlign(1), B.getInt64(R.range(1, 16))); return;
      case 3: B.CreateMemMove(focusPtr, MaybeAlign(1), R.pick(ptrs), MaybeAlign(1), B.getInt64(R.range(1, 16))); return;
      case 4: B.CreateCall(ext("ext_poke", V, { PT, I32, I32 }), { focusPtr, B.getInt32(16), B.getInt32(R.below(100)) }); return;
      default: return callOther();
      }
    }
    if (flavor == "mmem")
    {
      if (k < 42) load();
      else if (k < 68) store();
      else if (k < 82) memop();
      else if (k < 92) extop();
      else if (k < 95) callOther();
      else assign();
    }
    else if (flavor == "mloop")
    {
      if (k < 18) load();
      else if (k < 32) store();
      else if (k < 42) extop();
      else if (k < 45) callOther();
      else assign();
    }
    else
    {
      if (k < 8) load();
      else if (k < 12 && ownFlags) B.CreateStore(cond(2), flags[R.below(ownFlags)]);
      else if (k < 16) store();
      else if (k < 35) extop();
      else if (k < 45) callOther();
      else assign();
    }
  }
  void seq(int n)
  {
    for (int i = 0; i < n; i++)
    {
      budget--;
      int k = R.below(100);
      bool nest = depth < 3 && budget > 0;
      int pl = flavor == "mloop" ? 30 : 18, pi = flavor == "mgamma" ? 40 : 18, ps = flavor == "mgamma" ? 12 : 3;
      if (nest && k < pl && loopDepth < 2) loop();
      else if (nest && k < pl + pi) ifElse();
      else if (nest && k < pl + pi + ps) switchStmt();
      else simple();
    }
  }
  // a function of arbitrary branches between blocks; a counter keeps it finite
  void randomCfg()
  {
    int n = R.range(3, 8);
    std::vector<BasicBlock *> bs;
    for (int i = 0; i < n; i++)
      bs.push_back(bb("c"));
    auto x = bb("x");
    auto cnt = entryAlloca(I32);
    B.CreateStore(B.getInt32(0), cnt);
    B.CreateBr(bs[0]);
    auto target = [&]() { return R.chance(10) ? x : bs[R.below(n)]; };
    for (auto b : bs)
    {
      B.SetInsertPoint(b);
      auto c = B.CreateAdd(B.CreateLoad(I32, cnt), B.getInt32(1));
      B.CreateStore(c, cnt);
      if (R.chance(60))
        ev(var());
      for (int i = R.range(0, 2); i > 0; i--)
        assign();
      auto g = bb("g");
      B.CreateCondBr(B.CreateICmpULT(c, B.getInt32(R.range(10, 60))), g, x);
      B.SetInsertPoint(g);
      switch (R.below(6))
      {
      case 0: B.CreateBr(target()); break;
      case 1:
      {
        auto s = B.CreateSwitch(B.CreateAnd(expr(1), B.getInt64(3)), target());
        for (int k = 0; k < R.range(1, 3); k++)
          s->addCase(B.getInt64(k), target());
        break;
      }
      default: B.CreateCondBr(cond(2), target(), target());
      }
    }
    B.SetInsertPoint(x);
  }
  void initMem(Value * p, uint64_t s)
  {
    for (int k = 0; k < 4; k++)
      B.CreateStore(B.getInt64(s * 0x9E3779B97F4A7C15ull + k * 77), B.CreateInBoundsGEP(I64, p, B.getInt64(k)));
  }
  void body()
  {
    vars.clear();
    invariants.clear();
    ptrs = { F->getArg(2), F->getArg(3) };
    B.SetInsertPoint(BasicBlock::Create(C, "e", F));
    for (int i = 0; i < 3; i++)
    {
      vars.push_back(entryAlloca(I64));
      B.CreateStore(i < 2 ? (Value *)F->getArg(i) : B.getInt64(R.below(50)), vars.back());
    }
    invariants = { F->getArg(0), F->getArg(1) };
    flags.clear();
    for (int i = R.range(0, 2); i > 0; i--)
    {
      auto c = cond(2);
      flags.push_back(entryAlloca(I1));
      B.CreateStore(c, flags.back());
    }
    ownFlags = flags.size();
    if (R.chance(50))
      ptrs.push_back(R.pick(bufG));
    Value * heap = nullptr;
    if (R.chance(40))
    {
      auto a = entryAlloca(ArrayType::get(I64, 4));
      initMem(a, R.below(1000));
      ptrs.push_back(a);
    }
    if (flavor == "mmem" && R.chance(15))
    {
      heap = B.CreateCall(ext("malloc", PT, { I64 }), { B.getInt64(32) });
      initMem(heap, R.below(1000));
      ptrs.push_back(heap);
    }
    if (flavor == "mmem" && R.chance(30))
      ptrs = { R.pick(ptrs) };
    budget = R.range(4, 12);
    focus = -1;
    if (flavor == "mmem" && R.chance(50))
    {
      static const unsigned ws[] = { 8, 16, 32, 64 };
      focusPtr = R.pick(ptrs);
      focusW = ws[R.below(4)];
      focus = R.below(fns.empty() ? 5 : 6);
    }
    if (flavor == "mcfg")
      randomCfg();
    else
    {
      if (flavor == "mmem")
        load();
      seq(R.range(3, 6));
      if (flavor == "mmem")
        load();
    }
    if (heap)
      B.CreateCall(ext("free", V, { PT }), { heap });
    Value * r = B.CreateLoad(I64, vars[0]);
    for (size_t i = 1; i < vars.size(); i++)
      r = B.CreateAdd(B.CreateMul(r, B.getInt64(1000003)), B.CreateLoad(I64, vars[i]));
    B.CreateRet(r);
  }
  void run()
  {
    for (int i = 0; i < 3; i++)
    {
      std::vector<uint64_t> d;
      for (int k = 0; k < 4; k++)
        d.push_back(R.next());
      bufG.push_back(new GlobalVariable(M, ArrayType::get(I64, 4), false,
                                        R.chance(50) ? GlobalValue::InternalLinkage : GlobalValue::ExternalLinkage,
                                        ConstantDataArray::get(C, d), "buf" + std::to_string(i)));
    }
    std::vector<uint64_t> d = { R.next(), R.next(), R.next(), R.next() };
    roG = new GlobalVariable(M, ArrayType::get(I64, 4), true, GlobalValue::InternalLinkage, ConstantDataArray::get(C, d), "ro");
    int n = flavor == "mcfg" ? R.range(2, 4) : R.range(3, 6);
    std::vector<Function *> made;
    for (int i = 0; i < n; i++)
    {
      F = Function::Create(FunctionType::get(I64, { I64, I64, PT, PT }, false),
                           R.chance(60) ? GlobalValue::InternalLinkage : GlobalValue::ExternalLinkage, "m" + std::to_string(i), M);
      if (R.chance(30))
        F->addFnAttr(Attribute::NoInline);
      body();
      made.push_back(F);
      if (R.chance(40))
        fns.push_back(F);
    }
    F = Function::Create(FunctionType::get(I32, {}, false), GlobalValue::ExternalLinkage, "vh_main", M);
    B.SetInsertPoint(BasicBlock::Create(C, "e", F));
    std::vector<Value *> os(bufG.begin(), bufG.end());
    for (int i = 0; i < 2; i++)
    {
      auto a = entryAlloca(ArrayType::get(I64, 4));
      initMem(a, R.below(1000));
      os.push_back(a);
    }
    for (auto f : made)
      for (int k = 0; k < 3; k++)
      {
        auto p = R.pick(os), q = R.chance(30) ? p : R.pick(os);
        Value * a = B.getInt64(R.chance(50) ? R.range(-4, 12) : (int64_t)R.next());
        Value * b = B.getInt64(R.chance(50) ? R.range(-4, 12) : (int64_t)R.next());
        if (R.chance(30))
          a = B.CreateZExt(B.CreateCall(ext("ext_i32", I32, { I32, I32 }), { B.getInt32(77), B.getInt32(k) }), I64);
        ev(B.CreateCall(f, { a, b, p, q }));
        if (R.chance(60))
          B.CreateCall(ext("ext_peek", V, { PT, I32 }), { R.chance(50) ? p : q, B.getInt32(32) });
      }
    for (auto o : os)
      B.CreateCall(ext("ext_peek", V, { PT, I32 }), { o, B.getInt32(32) });
    B.CreateRet(B.getInt32(0));
  }
};
}
std::unique_ptr<Module> generateMini(LLVMContext & ctx, uint64_t seed, const std::string & flavor)
{
  auto M = std::make_unique<Module>("gen", ctx);
  M->setSourceFileName("gen.c");
  M->setTargetTriple("x86_64-unknown-linux-gnu");
  M->setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  Mini g(ctx, *M, seed, flavor);
  g.run();
  return M;
}
std::string miniPipeline(Rng & r)
{
  static const char * ps[] = { "function(mem2reg)", "function(mem2reg)", "function(mem2reg)", "function(mem2reg,simplifycfg)",
                               "function(sroa,instcombine<no-verify-fixpoint>,simplifycfg)", "function(mem2reg,loop-simplify,loop(loop-rotate))",
                               "function(sroa,early-cse,simplifycfg)", "" };
  return ps[r.below(8)];
}
}
