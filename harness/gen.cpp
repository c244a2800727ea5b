// Random, UB-free-by-construction LLVM IR programs.
#include <functional>
#include "common.hpp"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/NoFolder.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/AsmParser/Parser.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>

using namespace llvm;

namespace vh
{
namespace
{
enum class PK { BufL, BufS, FBuf, Tab, Node };
constexpr int BufSize = 64;   // bytes guaranteed readable behind any Buf pointer: 32
constexpr int BufReach = 32;

struct Sig
{
  std::vector<int> params; // >0: int width; -1: double; -2 BufL; -3 BufS; -4 Tab; -5 FBuf; -6 node
  int ret;                 // 0 void, >0 int width, -1 double, -3 BufS, -7 struct {i32,i64}
  bool indirect = false;   // i32 (i32, ptr BufL)
};

struct Fn
{
  Function * f;
  Sig sig;
};

struct Gen
{
  LLVMContext & C;
  Module & M;
  Rng R;
  GenProfile P;
  Type *I1, *I8, *I16, *I32, *I64, *F64, *F32, *V;
  PointerType * PT;
  StructType *NodeTy, *PairTy, *RecTy;
  GlobalVariable * budget;
  int constG = 0;
  std::vector<GlobalVariable *> scalarG; // integer globals
  std::vector<GlobalVariable *> floatG;
  std::vector<GlobalVariable *> bufG, constBufG, fbufG, tabG, nodeG;
  GlobalVariable *fnTab = nullptr, *fnVar = nullptr;
  std::vector<Fn> fns;
  std::map<std::string, FunctionCallee> ext;

  Gen(LLVMContext & c, Module & m, uint64_t seed, const GenProfile & p)
      : C(c), M(m), R(seed), P(p)
  {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I16 = Type::getInt16Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); F64 = Type::getDoubleTy(C);
    F32 = Type::getFloatTy(C); V = Type::getVoidTy(C);
    PT = PointerType::get(C, 0);
    NodeTy = R.chance(50) ? StructType::create(C, { I64, PT, PT, ArrayType::get(I32, 4) }, "node")
                          : StructType::get(C, { I64, PT, PT, ArrayType::get(I32, 4) });
    PairTy = StructType::get(C, { I32, I64 });
    RecTy = StructType::get(C, { I32, I8, I64, ArrayType::get(I16, 4), F64 });
  }

  FunctionCallee extFn(const char * n, Type * ret, std::vector<Type *> ps, bool va = false)
  {
    return M.getOrInsertFunction(n, FunctionType::get(ret, ps, va));
  }
  APInt interesting(unsigned w)
  {
    switch (R.below(9))
    {
    case 0: return APInt(w, 0);
    case 1: return APInt(w, 1);
    case 2: return APInt::getAllOnes(w);
    case 3: return APInt::getSignedMinValue(w);
    case 4: return APInt::getSignedMaxValue(w);
    case 5: return APInt(w, R.below(16));
    case 6: return APInt::getOneBitSet(w, R.below(w));
    default:
    {
      std::vector<uint64_t> ws;
      for (unsigned i = 0; i * 64 < w; i++)
        ws.push_back(R.next());
      return APInt(w, ws);
    }
    }
  }
  GlobalValue::LinkageTypes mutLinkage(bool canWeak = true)
  {
    if (!P.linkages)
      return GlobalValue::ExternalLinkage;
    switch (R.below(6))
    {
    case 0: case 1: case 2: return GlobalValue::InternalLinkage;
    case 3: return canWeak ? GlobalValue::WeakAnyLinkage : GlobalValue::ExternalLinkage;
    default: return GlobalValue::ExternalLinkage;
    }
  }
  std::string gname(const char * base, size_t i)
  {
    std::string s = base + std::to_string(i);
    if (R.chance(10))
      s = "." + s;
    return s;
  }
  Constant * bufInit()
  {
    switch (R.below(3))
    {
    case 0: return ConstantAggregateZero::get(ArrayType::get(I8, BufSize));
    case 1:
    {
      std::vector<uint32_t> d;
      for (int i = 0; i < BufSize / 4; i++)
        d.push_back((uint32_t)R.next());
      return ConstantDataArray::get(C, d);
    }
    default:
    {
      std::vector<uint8_t> d;
      for (int i = 0; i < BufSize; i++)
        d.push_back((uint8_t)R.next());
      return ConstantDataArray::get(C, d);
    }
    }
  }
  GlobalVariable * mkGlobal(Type * t, Constant * init, const std::string & n, bool cst, bool canWeak = true)
  {
    auto l = mutLinkage(canWeak && !cst);
    if (cst && R.chance(50))
      l = GlobalValue::PrivateLinkage;
    auto g = new GlobalVariable(M, t, cst, l, init, n);
    g->setAlignment(Align(16));
    return g;
  }
  Constant * bufRef(std::vector<GlobalVariable *> & v)
  {
    Constant * c = R.pick(v);
    if (R.chance(30))
      c = ConstantExpr::getInBoundsGetElementPtr(I8, c, ConstantInt::get(I64, 8 * R.below(4)));
    return c;
  }
  void globals()
  {
    budget = new GlobalVariable(M, I32, false, GlobalValue::InternalLinkage, ConstantInt::get(I32, 200), "budget");
    int n = R.range(2, 4);
    const unsigned ws[] = { 8, 16, 32, 64 };
    for (int i = 0; i < n; i++)
    {
      Type * t = IntegerType::get(C, ws[R.below(4)]);
      scalarG.push_back(mkGlobal(t, ConstantInt::get(C, interesting(t->getIntegerBitWidth())), gname("gs", i), false));
    }
    if (P.floats)
      floatG.push_back(mkGlobal(F64, ConstantFP::get(F64, (double)R.range(-5, 5) * 0.5), "gf0", false));
    n = R.range(2, 3);
    for (int i = 0; i < n; i++)
    {
      auto in = bufInit();
      bufG.push_back(mkGlobal(in->getType(), in, gname("gb", i), false));
    }
    {
      auto in = bufInit();
      constBufG.push_back(mkGlobal(in->getType(), in, "gcb", true));
    }
    if (P.floats)
    {
      std::vector<double> d;
      for (int i = 0; i < 8; i++)
        d.push_back(R.range(-100, 100) / 4.0);
      auto in = ConstantDataArray::get(C, d);
      fbufG.push_back(mkGlobal(in->getType(), in, "gfb", false));
    }
    // pointer tables
    n = R.range(1, 2);
    for (int i = 0; i < n; i++)
    {
      auto at = ArrayType::get(PT, 4);
      std::vector<Constant *> es;
      for (int k = 0; k < 4; k++)
        es.push_back(bufRef(bufG));
      tabG.push_back(mkGlobal(at, ConstantArray::get(at, es), gname("gt", i), false));
    }
    // linked nodes
    n = R.range(1, 3);
    for (int i = 0; i < n; i++)
    {
      auto g = new GlobalVariable(M, NodeTy, false, mutLinkage(false), nullptr, gname("gn", i));
      g->setAlignment(Align(16));
      nodeG.push_back(g);
    }
    for (auto g : nodeG)
    {
      g->setInitializer(ConstantStruct::get(NodeTy,
          { ConstantInt::get(I64, R.below(1000)), bufRef(bufG), R.pick(nodeG),
            ConstantDataArray::get(C, ArrayRef<uint32_t>({ 1, 2, 3, (uint32_t)R.next() })) }));
    }
  }
  void signatures()
  {
    int n = P.functions;
    for (int i = 0; i < n; i++)
    {
      Sig s;
      if (P.indirect && R.chance(40))
      {
        s.indirect = true;
        s.params = { 32, -2 };
        s.ret = 32;
      }
      else
      {
        int np = R.range(0, 4);
        for (int k = 0; k < np; k++)
        {
          static const int cands[] = { 32, 64, 8, 1, 32, -1, -2, -3, -2, -4, -5, -6 };
          int c = cands[R.below(12)];
          if (!P.floats && (c == -1 || c == -5))
            c = 32;
          s.params.push_back(c);
        }
        static const int rets[] = { 0, 32, 32, 64, -1, -3, -7, 8, 1 };
        s.ret = rets[R.below(9)];
        if (!P.floats && s.ret == -1)
          s.ret = 32;
        if (!P.aggregates && s.ret == -7)
          s.ret = 64;
      }
      std::vector<Type *> ps;
      for (int c : s.params)
        ps.push_back(paramTy(c));
      auto ft = FunctionType::get(retTy(s.ret), ps, false);
      auto l = GlobalValue::ExternalLinkage;
      if (P.linkages)
      {
        switch (R.below(6))
        {
        case 0: case 1: case 2: l = GlobalValue::InternalLinkage; break;
        case 3: l = GlobalValue::LinkOnceODRLinkage; break;
        default: break;
        }
      }
      auto f = Function::Create(ft, l, "f" + std::to_string(i), M);
      if (R.chance(30))
        f->addFnAttr(Attribute::NoInline);
      if (R.chance(20))
        f->addFnAttr(Attribute::NoUnwind);
      if (R.chance(10) && l == GlobalValue::InternalLinkage)
        f->setCallingConv(CallingConv::Fast);
      fns.push_back({ f, s });
    }
    // function pointer table
    std::vector<Constant *> cands;
    for (auto & f : fns)
      if (f.sig.indirect)
      {
        f.f->setCallingConv(CallingConv::C);
        cands.push_back(f.f);
      }
    if (P.indirect)
    {
      // an always-available leaf
      auto ft = FunctionType::get(I32, { I32, PT }, false);
      auto f = Function::Create(ft, GlobalValue::InternalLinkage, "leaf", M);
      IRBuilder<NoFolder> b(BasicBlock::Create(C, "e", f));
      Value * v = b.CreateXor(f->getArg(0), b.getInt32(0x55));
      Value * p = b.CreateInBoundsGEP(I32, f->getArg(1), b.getInt64(R.below(8)));
      v = b.CreateAdd(v, b.CreateLoad(I32, p));
      if (R.chance(50))
        b.CreateStore(v, p);
      b.CreateRet(v);
      cands.push_back(f);
      auto at = ArrayType::get(PT, 4);
      std::vector<Constant *> es;
      for (int k = 0; k < 4; k++)
        es.push_back(R.pick(cands));
      fnTab = mkGlobal(at, ConstantArray::get(at, es), "ftab", R.chance(40));
      fnVar = mkGlobal(PT, R.pick(cands), "fvar", false);
      fnCands = cands;
    }
  }
  std::vector<Constant *> fnCands;
  Type * paramTy(int c)
  {
    if (c > 0)
      return IntegerType::get(C, c);
    if (c == -1)
      return F64;
    return PT;
  }
  Type * retTy(int c)
  {
    if (c == 0)
      return V;
    if (c > 0)
      return IntegerType::get(C, c);
    if (c == -1)
      return F64;
    if (c == -7)
      return PairTy;
    return PT;
  }
};

struct FnGen
{
  Gen & G;
  Rng & R;
  Function * F;
  size_t idx; // index; may call functions with larger index, or any function under the budget
  IRBuilder<NoFolder> B;
  LLVMContext & C;
  BasicBlock * entry;
  struct Var { Value * p; Type * t; };
  std::map<unsigned, std::vector<Value *>> ivars;
  std::vector<Value *> fvars;              // double
  std::vector<Value *> bufLvars, bufSvars; // alloca holding pointers
  std::vector<Value *> bufs;               // direct objects (allocas): int content
  std::vector<Value *> fbufs;
  std::vector<Value *> tabs;               // own tables (array of ptr)
  std::vector<Value *> tabParams;          // tables of the caller: only BufS may be stored
  std::vector<Value *> nodeVars;           // alloca holding node pointers
  std::vector<Value *> recs;               // RecTy allocas
  std::vector<Value *> vecs;               // <4 x i32> allocas
  std::vector<Value *> fvecs;
  std::vector<Value *> constLoopVars;      // i32 alloca read-only loop counters (not to be written)
  int stmts;
  int loopDepth = 0;
  int depth = 0;
  BasicBlock *breakBB = nullptr, *contBB = nullptr;
  int retKind;
  bool isMain;

  FnGen(Gen & g, Function * f, size_t i, int rk, bool main)
      : G(g), R(g.R), F(f), idx(i), B(g.C), C(g.C), retKind(rk), isMain(main)
  {
    stmts = main ? G.P.stmts * 2 : R.range(2, G.P.stmts);
    entry = BasicBlock::Create(C, "entry", F);
    B.SetInsertPoint(entry);
  }
  BasicBlock * bb(const char * n) { return BasicBlock::Create(C, n, F); }
  ConstantInt * ci(unsigned w, uint64_t v) { return ConstantInt::get(IntegerType::get(C, w), v); }
  Value * entryAlloca(Type * t)
  {
    IRBuilder<> eb(entry, entry->begin());
    auto a = eb.CreateAlloca(t);
    a->setAlignment(Align(16));
    return a;
  }

  // ---------------------------------------------------------------- set up
  void setup(const Sig * sig)
  {
    for (unsigned w : { 1u, 8u, 16u, 32u, 32u, 64u })
    {
      auto a = B.CreateAlloca(IntegerType::get(C, w));
      ivars[w].push_back(a);
      B.CreateStore(ConstantInt::get(C, G.interesting(w)), a);
    }
    if (G.P.exotic && R.chance(40))
    {
      static const unsigned ex[] = { 3, 7, 13, 24, 33, 48, 65, 96, 128, 128 };
      unsigned w = ex[R.below(10)];
      auto a = B.CreateAlloca(IntegerType::get(C, w));
      ivars[w].push_back(a);
      B.CreateStore(ConstantInt::get(C, G.interesting(w)), a);
    }
    if (G.P.floats)
      for (int i = 0; i < 2; i++)
      {
        auto a = B.CreateAlloca(G.F64);
        fvars.push_back(a);
        B.CreateStore(ConstantFP::get(G.F64, R.range(-20, 20) * 0.25), a);
      }
    int nb = R.range(1, 2);
    for (int i = 0; i < nb; i++)
    {
      auto t = ArrayType::get(R.chance(50) ? G.I8 : G.I32, 1);
      t = ArrayType::get(t->getElementType(), BufSize / (t->getElementType()->getIntegerBitWidth() / 8));
      auto a = B.CreateAlloca(t);
      a->setAlignment(Align(16));
      bufs.push_back(a);
      initMem(a, BufSize);
    }
    if (G.P.floats && R.chance(50))
    {
      auto a = B.CreateAlloca(ArrayType::get(G.F64, 8));
      a->setAlignment(Align(16));
      fbufs.push_back(a);
      for (int i = 0; i < 8; i++)
        B.CreateStore(ConstantFP::get(G.F64, i * 0.5), B.CreateInBoundsGEP(G.F64, a, B.getInt64(i)));
    }
    if (G.P.aggregates && R.chance(60))
    {
      auto a = B.CreateAlloca(G.RecTy);
      recs.push_back(a);
      B.CreateStore(B.getInt32(R.next()), recField(a, 0));
      B.CreateStore(B.getInt8(R.next()), recField(a, 1));
      B.CreateStore(B.getInt64(R.next()), recField(a, 2));
      for (int i = 0; i < 4; i++)
        B.CreateStore(B.getInt16(R.next()), recField(a, 3, i));
      B.CreateStore(ConstantFP::get(G.F64, 1.5), recField(a, 4));
    }
    if (G.P.vectors && R.chance(30))
    {
      auto vt = FixedVectorType::get(G.I32, 4);
      auto a = B.CreateAlloca(vt);
      vecs.push_back(a);
      B.CreateStore(ConstantDataVector::get(C, std::vector<uint32_t>{ 1, 2, 3, (uint32_t)R.next() }), a);
    }
    if (sig)
      for (size_t i = 0; i < sig->params.size(); i++)
      {
        int c = sig->params[i];
        auto arg = F->getArg(i);
        if (c == -4) { tabParams.push_back(arg); continue; }
        if (c == -5) { fbufs.push_back(arg); continue; }
        auto a = B.CreateAlloca(arg->getType());
        B.CreateStore(arg, a);
        if (c > 0)
          ivars[c].push_back(a);
        else if (c == -1)
          fvars.push_back(a);
        else if (c == -2)
          bufLvars.push_back(a);
        else if (c == -3)
          bufSvars.push_back(a);
        else if (c == -6)
          nodeVars.push_back(a);
      }
    // pointer variables
    {
      auto a = B.CreateAlloca(G.PT);
      B.CreateStore(R.chance(50) ? (Value *)bufs[0] : (Value *)R.pick(G.bufG), a);
      bufLvars.push_back(a);
      a = B.CreateAlloca(G.PT);
      B.CreateStore(R.pick(G.bufG), a);
      bufSvars.push_back(a);
      a = B.CreateAlloca(G.PT);
      B.CreateStore(R.pick(G.nodeG), a);
      nodeVars.push_back(a);
    }
    if (R.chance(40))
    {
      auto a = B.CreateAlloca(ArrayType::get(G.PT, 4));
      for (int i = 0; i < 4; i++)
        B.CreateStore(bufLptr(1), B.CreateInBoundsGEP(G.PT, a, B.getInt64(i)));
      tabs.push_back(a);
    }
  }
  void initMem(Value * p, int size)
  {
    if (G.P.memIntrinsics && R.chance(70))
      B.CreateMemSet(p, B.getInt8(R.below(256)), size, MaybeAlign(8));
    else
      for (int i = 0; i < size / 8; i++)
        B.CreateStore(B.getInt64(R.below(1000)), B.CreateInBoundsGEP(G.I64, p, B.getInt64(i)));
  }
  Value * recField(Value * p, int f, int k = -1)
  {
    std::vector<Value *> ix{ B.getInt32(0), B.getInt32(f) };
    if (k >= 0)
      ix.push_back(B.getInt64(k));
    return B.CreateInBoundsGEP(G.RecTy, p, ix);
  }

  // ---------------------------------------------------------------- expressions
  Value * anyInt(int d)
  {
    static const unsigned ws[] = { 32, 64, 8, 16, 32, 64 };
    return iexpr(ws[R.below(6)], d);
  }
  Value * castInt(Value * v, unsigned w)
  {
    unsigned cw = v->getType()->getIntegerBitWidth();
    auto t = IntegerType::get(C, w);
    if (cw == w)
      return v;
    if (cw > w)
      return B.CreateTrunc(v, t);
    return R.chance(50) ? B.CreateZExt(v, t) : B.CreateSExt(v, t);
  }
  Value * loadVar(unsigned w)
  {
    auto it = ivars.find(w);
    if (it == ivars.end() || it->second.empty())
      return ConstantInt::get(C, G.interesting(w));
    if (w == 32 && !constLoopVars.empty() && R.chance(40))
      return B.CreateLoad(G.I32, R.pick(constLoopVars));
    return B.CreateLoad(IntegerType::get(C, w), R.pick(it->second));
  }
  Value * bexpr(int d)
  {
    switch (R.below(7))
    {
    case 0: return loadVar(1);
    case 1:
    case 2:
    case 3:
    {
      auto a = anyInt(d - 1);
      auto b = R.chance(50) ? (Value *)ConstantInt::get(C, G.interesting(a->getType()->getIntegerBitWidth()))
                            : iexpr(a->getType()->getIntegerBitWidth(), d - 1);
      static const CmpInst::Predicate ps[] = { CmpInst::ICMP_EQ, CmpInst::ICMP_NE, CmpInst::ICMP_ULT,
        CmpInst::ICMP_ULE, CmpInst::ICMP_UGT, CmpInst::ICMP_UGE, CmpInst::ICMP_SLT, CmpInst::ICMP_SLE,
        CmpInst::ICMP_SGT, CmpInst::ICMP_SGE };
      return B.CreateICmp(ps[R.below(10)], a, b);
    }
    case 4:
      if (G.P.floats)
      {
        static const CmpInst::Predicate ps[] = { CmpInst::FCMP_OEQ, CmpInst::FCMP_ONE, CmpInst::FCMP_OLT,
          CmpInst::FCMP_OLE, CmpInst::FCMP_OGT, CmpInst::FCMP_OGE, CmpInst::FCMP_UEQ, CmpInst::FCMP_UNE,
          CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_UGT, CmpInst::FCMP_UGE, CmpInst::FCMP_ORD,
          CmpInst::FCMP_UNO };
        return B.CreateFCmp(ps[R.below(14)], fexpr(d - 1), fexpr(d - 1));
      }
      [[fallthrough]];
    case 5:
    {
      auto a = bufLptr(1), b = bufLptr(1);
      return R.chance(50) ? B.CreateICmpEQ(a, b) : B.CreateICmpNE(a, b);
    }
    default:
      if (d > 0)
      {
        auto a = bexpr(d - 1), b = bexpr(d - 1);
        switch (R.below(3))
        {
        case 0: return B.CreateAnd(a, b);
        case 1: return B.CreateOr(a, b);
        default: return B.CreateXor(a, b);
        }
      }
      return loadVar(1);
    }
  }
  Value * iexpr(unsigned w, int d)
  {
    auto t = IntegerType::get(C, w);
    if (w == 1 && R.chance(70))
      return bexpr(d);
    if (d <= 0)
      return R.chance(70) ? loadVar(w) : (Value *)ConstantInt::get(C, G.interesting(w));
    switch (R.below(24))
    {
    case 0: case 1: return loadVar(w);
    case 2: return ConstantInt::get(C, G.interesting(w));
    case 3: case 4: case 5: case 6: case 7: case 8:
    {
      auto a = iexpr(w, d - 1), b = R.chance(40) ? ConstantInt::get(C, G.interesting(w)) : iexpr(w, d - 1);
      switch (R.below(6))
      {
      case 0: return B.CreateAdd(a, b);
      case 1: return B.CreateSub(a, b);
      case 2: return B.CreateMul(a, b);
      case 3: return B.CreateAnd(a, b);
      case 4: return B.CreateOr(a, b);
      default: return B.CreateXor(a, b);
      }
    }
    case 9:
    {
      auto a = iexpr(w, d - 1);
      Value * s;
      if (R.chance(50))
        s = ConstantInt::get(C, APInt(w, R.below(w)));
      else if ((w & (w - 1)) == 0)
        s = B.CreateAnd(iexpr(w, d - 1), ConstantInt::get(C, APInt(w, w - 1)));
      else
        s = B.CreateURem(iexpr(w, d - 1), ConstantInt::get(C, APInt(w, w)));
      switch (R.below(3))
      {
      case 0: return B.CreateShl(a, s);
      case 1: return B.CreateLShr(a, s);
      default: return B.CreateAShr(a, s);
      }
    }
    case 10:
    {
      if (w > 64)
        return loadVar(w);
      auto a = iexpr(w, d - 1);
      Value * b;
      if (R.chance(40))
      {
        APInt c = G.interesting(w);
        if (c.isZero() || c.isAllOnes())
          c = APInt(w, 1);
        b = ConstantInt::get(C, c);
      }
      else
      { // 1 .. 8, positive in the signed sense
        b = w < 5 ? (Value *)ConstantInt::get(C, APInt(w, 1))
                  : B.CreateAdd(B.CreateAnd(iexpr(w, d - 1), ConstantInt::get(C, APInt(w, 7))), ConstantInt::get(C, APInt(w, 1)));
      }
      switch (R.below(4))
      {
      case 0: return B.CreateUDiv(a, b);
      case 1: return B.CreateURem(a, b);
      case 2: return w < 5 ? a : B.CreateSDiv(a, b);
      default: return w < 5 ? a : B.CreateSRem(a, b);
      }
    }
    case 11: case 12: return castInt(anyInt(d - 1), w);
    case 13:
    {
      auto c = bexpr(d - 1);
      auto a = iexpr(w, d - 1), b = iexpr(w, d - 1);
      return B.CreateSelect(c, a, b);
    }
    case 14:
      if (G.P.intrinsics)
      {
        auto a = iexpr(w, d - 1), b = iexpr(w, d - 1);
        switch (R.below(12))
        {
        case 0: return B.CreateBinaryIntrinsic(Intrinsic::smax, a, b);
        case 1: return B.CreateBinaryIntrinsic(Intrinsic::smin, a, b);
        case 2: return B.CreateBinaryIntrinsic(Intrinsic::umax, a, b);
        case 3: return B.CreateBinaryIntrinsic(Intrinsic::umin, a, b);
        case 4: return B.CreateUnaryIntrinsic(Intrinsic::ctpop, a);
        case 5: return B.CreateBinaryIntrinsic(Intrinsic::ctlz, a, B.getFalse());
        case 6: return B.CreateBinaryIntrinsic(Intrinsic::cttz, a, B.getFalse());
        case 7: return w % 16 == 0 ? B.CreateUnaryIntrinsic(Intrinsic::bswap, a) : a;
        case 8: return B.CreateBinaryIntrinsic(Intrinsic::abs, a, B.getFalse());
        case 9: return B.CreateIntrinsic(Intrinsic::fshl, { t }, { a, b, iexpr(w, d - 1) });
        case 10: return B.CreateIntrinsic(Intrinsic::expect, { t }, { a, ConstantInt::get(t, 0) });
        default:
        {
          static const Intrinsic::ID ids[] = { Intrinsic::sadd_with_overflow, Intrinsic::uadd_with_overflow,
            Intrinsic::ssub_with_overflow, Intrinsic::smul_with_overflow, Intrinsic::umul_with_overflow };
          if (w > 64)
            return a;
          auto r = B.CreateBinaryIntrinsic(ids[R.below(5)], a, b);
          auto x = B.CreateExtractValue(r, { 0 });
          auto o = B.CreateExtractValue(r, { 1 });
          return B.CreateXor(x, B.CreateZExtOrTrunc(o, t));
        }
        }
      }
      return loadVar(w);
    case 15: case 16:
      if (w == 8 || w == 16 || w == 32 || w == 64)
        return B.CreateLoad(t, bufAddr(bufLptr(d), w / 8));
      return loadVar(w);
    case 17:
      if (w >= 8 && w <= 64 && !G.scalarG.empty())
      {
        auto g = R.pick(G.scalarG);
        return castInt(B.CreateLoad(g->getValueType(), g), w);
      }
      return loadVar(w);
    case 18:
      if (!recs.empty())
      {
        auto r = R.pick(recs);
        switch (R.below(4))
        {
        case 0: return castInt(B.CreateLoad(G.I32, recField(r, 0)), w);
        case 1: return castInt(B.CreateLoad(G.I8, recField(r, 1)), w);
        case 2: return castInt(B.CreateLoad(G.I64, recField(r, 2)), w);
        default: return castInt(B.CreateLoad(G.I16, recField(r, 3, R.below(4))), w);
        }
      }
      return loadVar(w);
    case 19:
      if (!vecs.empty())
        return castInt(B.CreateExtractElement(vexpr(d - 1), B.getInt32(R.below(4))), w);
      return loadVar(w);
    case 20:
      if (G.P.floats)
      { // guarded conversion
        auto f = fexpr(d - 1);
        auto ok = B.CreateFCmpOLT(B.CreateUnaryIntrinsic(Intrinsic::fabs, f), ConstantFP::get(G.F64, 60.0));
        auto s = B.CreateSelect(ok, f, ConstantFP::get(G.F64, 3.0));
        if (w >= 8 && w <= 64)
          return B.CreateFPToSI(s, t);
      }
      return loadVar(w);
    case 21:
      if (nodeVars.size() && w >= 8 && w <= 64)
      {
        auto n = nodeptr(d - 1);
        if (R.chance(50))
          return castInt(B.CreateLoad(G.I64, B.CreateInBoundsGEP(G.NodeTy, n, { B.getInt32(0), B.getInt32(0) })), w);
        auto i = B.CreateAnd(iexpr(64, d - 1), B.getInt64(3));
        return castInt(B.CreateLoad(G.I32, B.CreateInBoundsGEP(G.NodeTy, n, { B.getInt32(0), B.getInt32(3), i })), w);
      }
      return loadVar(w);
    case 22:
      if (G.P.aggregates)
      {
        Value * s = PoisonValue::get(G.PairTy);
        s = B.CreateInsertValue(s, iexpr(32, d - 1), { 0 });
        s = B.CreateInsertValue(s, iexpr(64, d - 1), { 1 });
        return castInt(B.CreateExtractValue(s, { (unsigned)R.below(2) }), w);
      }
      return loadVar(w);
    default:
      if (R.chance(30))
        return B.CreateFreeze(iexpr(w, d - 1));
      return castInt(bexpr(d - 1), w);
    }
  }
  Value * vexpr(int d)
  {
    auto vt = FixedVectorType::get(G.I32, 4);
    if (d <= 0 || R.chance(30))
      return B.CreateLoad(vt, R.pick(vecs));
    switch (R.below(6))
    {
    case 0: return B.CreateInsertElement(vexpr(d - 1), iexpr(32, d - 1), B.getInt32(R.below(4)));
    case 1: return B.CreateAdd(vexpr(d - 1), vexpr(d - 1));
    case 2: return B.CreateXor(vexpr(d - 1), vexpr(d - 1));
    case 3:
      return B.CreateShuffleVector(vexpr(d - 1), vexpr(d - 1),
          { (int)R.below(8), (int)R.below(8), (int)R.below(8), (int)R.below(8) });
    case 4: return B.CreateMul(vexpr(d - 1), ConstantDataVector::get(C, std::vector<uint32_t>{ 3, 5, 7, 9 }));
    default: return B.CreateAlignedLoad(vt, bufAddr(bufLptr(d), 16), Align(8));
    }
  }
  Value * fexpr(int d)
  {
    if (d <= 0)
      return R.chance(60) ? (Value *)B.CreateLoad(G.F64, R.pick(fvars))
                          : (Value *)ConstantFP::get(G.F64, R.range(-64, 64) * 0.125);
    switch (R.below(12))
    {
    case 0: return B.CreateFAdd(fexpr(d - 1), fexpr(d - 1));
    case 1: return B.CreateFSub(fexpr(d - 1), fexpr(d - 1));
    case 2: return B.CreateFMul(fexpr(d - 1), fexpr(d - 1));
    case 3: return B.CreateFDiv(fexpr(d - 1), fexpr(d - 1));
    case 4: return B.CreateFNeg(fexpr(d - 1));
    case 5: return R.chance(50) ? B.CreateSIToFP(anyInt(d - 1), G.F64) : B.CreateUIToFP(anyInt(d - 1), G.F64);
    case 6: return B.CreateFPExt(B.CreateFPTrunc(fexpr(d - 1), G.F32), G.F64);
    case 7:
      if (G.P.intrinsics)
      {
        static const Intrinsic::ID ids[] = { Intrinsic::fabs, Intrinsic::floor, Intrinsic::ceil, Intrinsic::trunc, Intrinsic::rint };
        if (R.chance(30))
          return B.CreateBinaryIntrinsic(Intrinsic::copysign, fexpr(d - 1), fexpr(d - 1));
        return B.CreateUnaryIntrinsic(ids[R.below(5)], fexpr(d - 1));
      }
      [[fallthrough]];
    case 8:
      if (auto p = fbufPtr())
      {
        auto i = B.CreateAnd(iexpr(64, d - 1), B.getInt64(7));
        return B.CreateLoad(G.F64, B.CreateInBoundsGEP(G.F64, p, i));
      }
      [[fallthrough]];
    case 9: return B.CreateSelect(bexpr(d - 1), fexpr(d - 1), fexpr(d - 1));
    case 10:
      if (!G.floatG.empty())
        return B.CreateLoad(G.F64, R.pick(G.floatG));
      [[fallthrough]];
    default:
      return B.CreateLoad(G.F64, R.pick(fvars));
    }
  }
  Value * fbufPtr()
  {
    std::vector<Value *> c = fbufs;
    for (auto g : G.fbufG)
      c.push_back(g);
    return c.empty() ? nullptr : R.pick(c);
  }
  // pointer to at least BufReach bytes of integer memory, valid until the function returns
  Value * bufLptr(int d)
  {
    switch (R.below(9))
    {
    case 0: case 1: return R.pick(bufs);
    case 2: case 3: return B.CreateLoad(G.PT, R.pick(bufLvars));
    case 4:
      if (!tabs.empty())
      {
        auto i = d > 0 ? B.CreateAnd(iexpr(64, d - 1), B.getInt64(3)) : (Value *)B.getInt64(R.below(4));
        return B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.PT, R.pick(tabs), i));
      }
      [[fallthrough]];
    case 5:
      if (!tabParams.empty())
        return B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.PT, R.pick(tabParams), B.getInt64(R.below(4))));
      [[fallthrough]];
    case 6:
      if (d > 0 && R.chance(40))
      {
        auto c = bexpr(d - 1);
        auto a = bufLptr(d - 1), b = bufLptr(d - 1);
        return B.CreateSelect(c, a, b);
      }
      [[fallthrough]];
    default: return bufSptr(d);
    }
  }
  Value * bufSptr(int d)
  {
    switch (R.below(7))
    {
    case 0: case 1: return R.pick(G.bufG);
    case 2: return B.CreateLoad(G.PT, R.pick(bufSvars));
    case 3:
    {
      auto i = d > 0 ? B.CreateAnd(iexpr(64, d - 1), B.getInt64(3)) : (Value *)B.getInt64(R.below(4));
      return B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.PT, R.pick(G.tabG), i));
    }
    case 4: return B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.NodeTy, nodeptr(d - 1), { B.getInt32(0), B.getInt32(1) }));
    case 5: return B.CreateInBoundsGEP(G.I8, R.pick(G.bufG), B.getInt64(8 * R.below(5)));
    default: return R.pick(G.bufG);
    }
  }
  Value * nodeptr(int d)
  {
    if (d > 0 && R.chance(40))
      return B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.NodeTy, nodeptr(d - 1), { B.getInt32(0), B.getInt32(2) }));
    if (R.chance(40))
      return R.pick(G.nodeG);
    return B.CreateLoad(G.PT, R.pick(nodeVars));
  }
  // address of a naturally aligned element of the given size behind a buffer pointer (pointer 8-aligned)
  Value * bufAddr(Value * p, unsigned size)
  {
    unsigned n = BufReach / size;
    if (size == 16) // loads of vectors: only claim alignment 8: use index 0 or byte offset 8
      return p;
    auto et = IntegerType::get(C, size * 8);
    if (R.chance(60))
    {
      if (R.chance(30)) // byte GEP
        return B.CreateInBoundsGEP(G.I8, p, B.getInt64(size * R.below(n)));
      return B.CreateInBoundsGEP(et, p, B.getInt64(R.below(n)));
    }
    unsigned iw = R.chance(50) ? 64 : 32;
    auto i = B.CreateAnd(iexpr(iw, 1), ci(iw, n - 1));
    return B.CreateInBoundsGEP(et, p, i);
  }

  // ---------------------------------------------------------------- statements
  void block(int n)
  {
    for (int i = 0; i < n && stmts > 0; i++)
      stmt();
  }
  void ev(Value * v)
  {
    auto id = B.getInt32(R.below(1000));
    if (v->getType()->isDoubleTy())
      B.CreateCall(G.extFn("ext_f64", G.V, { G.I32, G.F64 }), { id, v });
    else
    {
      auto x = v;
      unsigned w = x->getType()->getIntegerBitWidth();
      if (w > 64)
        x = B.CreateXor(B.CreateTrunc(x, G.I64), B.CreateTrunc(B.CreateLShr(x, ConstantInt::get(C, APInt(w, 1 + R.below(w - 1)))), G.I64));
      else if (w < 64)
        x = B.CreateZExt(x, G.I64);
      B.CreateCall(G.extFn("ext_i64", G.V, { G.I32, G.I64 }), { id, x });
    }
  }
  void assignInt()
  {
    std::vector<unsigned> ws;
    for (auto & kv : ivars)
      ws.push_back(kv.first);
    unsigned w = R.pick(ws);
    auto v = iexpr(w, R.range(1, 3));
    B.CreateStore(v, R.pick(ivars[w]));
  }
  void callFn(const Fn & c, bool guarded)
  {
    BasicBlock * done = nullptr;
    if (guarded)
    {
      auto b = B.CreateLoad(G.I32, G.budget);
      auto doit = bb("call.do");
      done = bb("call.done");
      B.CreateCondBr(B.CreateICmpSGT(b, B.getInt32(0)), doit, done);
      B.SetInsertPoint(doit);
      B.CreateStore(B.CreateSub(b, B.getInt32(1)), G.budget);
    }
    std::vector<Value *> args;
    for (int p : c.sig.params)
      args.push_back(arg(p));
    auto call = B.CreateCall(c.f, args);
    call->setCallingConv(c.f->getCallingConv());
    useResult(call, c.sig.ret);
    if (done)
    {
      B.CreateBr(done);
      B.SetInsertPoint(done);
    }
  }
  Value * arg(int p)
  {
    if (p > 0)
      return iexpr(p, 1);
    switch (p)
    {
    case -1: return fexpr(1);
    case -2: return bufLptr(1);
    case -3: return bufSptr(1);
    case -4:
      if (!tabs.empty() && R.chance(60))
        return R.pick(tabs);
      if (!tabParams.empty() && R.chance(50))
        return R.pick(tabParams);
      return R.pick(G.tabG);
    case -5: return fbufPtr();
    default: return nodeptr(1);
    }
  }
  void useResult(Value * v, int rk)
  {
    if (rk > 0)
    {
      auto & vs = ivars[rk];
      if (!vs.empty() && R.chance(80))
        B.CreateStore(v, R.pick(vs));
    }
    else if (rk == -1)
      B.CreateStore(v, R.pick(fvars));
    else if (rk == -3)
      B.CreateStore(v, R.chance(50) ? R.pick(bufSvars) : R.pick(bufLvars));
    else if (rk == -7)
    {
      B.CreateStore(B.CreateExtractValue(v, { 0 }), R.pick(ivars[32]));
      B.CreateStore(B.CreateExtractValue(v, { 1 }), R.pick(ivars[64]));
    }
  }
  void stmt()
  {
    stmts--;
    if (!B.GetInsertBlock()->getTerminator())
      ;
    int k = R.below(100);
    bool nest = depth < 3;
    if (depth < 2 && loopDepth < 2 && R.chance(G.P.memPatPct))
    {
      int pk = R.below(100);
      if (pk < 20)
        windowIdiom();
      else if (pk < 40)
        prevIdiom();
      else if (pk < 46)
        dynIdiom();
      else
        memPattern();
    }
    else if (k < 14)
      assignInt();
    else if (k < 24)
      storeBuf();
    else if (k < 32 && nest)
      ifElse();
    else if (k < 37 && nest)
      switchStmt();
    else if (k < 47 && nest && loopDepth < 2)
    {
      if (R.chance(G.P.ivPct))
      {
        loopDepth++;
        ivLoop();
        loopDepth--;
      }
      else
        loop();
    }
    else if (k < 49 && R.chance(60))
      constLoad();
    else if (k < 50)
      ev(R.chance(70) || !G.P.floats ? anyInt(2) : fexpr(2));
    else if (k < 54)
      ptrAssign();
    else if (k < 61)
      callSome();
    else if (k < 66)
      extCall();
    else if (k < 70)
      globalAssign();
    else if (k < 74 && G.P.memIntrinsics)
      memIntr();
    else if (k < 77 && !recs.empty())
      recAssign();
    else if (k < 80 && !vecs.empty())
      B.CreateStore(vexpr(2), R.pick(vecs));
    else if (k < 83 && G.P.volatiles)
      volatileAcc();
    else if (k < 86)
      guardedIdiom();
    else if (k < 88 && G.P.heap)
      heapIdiom();
    else if (k < 91 && nest && G.P.irreducible && loopDepth < 1)
      gotoChunk();
    else if (k < 93 && G.P.undefs)
      undefIdiom();
    else if (k < 95 && (breakBB || !isMain))
      earlyExit();
    else if (k < 97)
      nodeAssign();
    else if (G.P.floats)
    {
      if (R.chance(50) || !fbufPtr())
        B.CreateStore(fexpr(3), R.pick(fvars));
      else
        B.CreateStore(fexpr(2), B.CreateInBoundsGEP(G.F64, fbufPtr(), B.CreateAnd(iexpr(64, 1), B.getInt64(7))));
    }
    else
      assignInt();
  }
  void storeBuf()
  {
    static const unsigned ws[] = { 8, 16, 32, 64 };
    unsigned w = ws[R.below(4)];
    auto v = iexpr(w, 2);
    auto p = bufAddr(bufLptr(1), w / 8);
    B.CreateStore(v, p);
    if (R.chance(40)) // load/store pairs
    {
      auto p2 = R.chance(50) ? p : bufAddr(bufLptr(1), w / 8);
      B.CreateStore(B.CreateLoad(IntegerType::get(C, w), p2), R.pick(ivars[w]));
    }
  }
  // a dense sequence of accesses of one object, each possibly under control flow, whose loads are all reported:
  // whatever orders, forwards, merges, removes or moves memory operations meets a witness here
  void memPattern()
  {
    static const unsigned ws[] = { 8, 16, 32, 64 };
    Value * p;
    bool heap = false;
    switch (R.below(5))
    {
    case 0: p = R.pick(bufs); break;
    case 1: p = R.pick(G.bufG); break;
    case 2:
      if (G.P.heap && loopDepth == 0)
      {
        p = B.CreateCall(G.extFn("malloc", G.PT, { G.I64 }), { B.getInt64(64) });
        initMem(p, 64);
        heap = true;
        break;
      }
      [[fallthrough]];
    default: p = bufLptr(1);
    }
    Value * q = R.chance(60) ? R.pick(bufs) : bufLptr(1); // a second object, or perhaps the same
    auto acc = entryAlloca(G.I64);
    B.CreateStore(B.getInt64(0), acc);
    unsigned base = 8 * R.below(3), w0 = ws[R.below(4)];
    auto addr = [&](Value * o, unsigned & w) -> Value *
    {
      w = R.chance(65) ? w0 : ws[R.below(4)];
      unsigned off = R.chance(65) ? base : R.chance(60) ? base + w / 8 * R.below(2) : (w / 8) * R.below(BufReach / (w / 8));
      if (off + w / 8 > BufReach)
        off = 0;
      if (off == 0 && R.chance(50))
        return o;
      if (R.chance(20))
        return B.CreateInBoundsGEP(IntegerType::get(C, w), o, B.CreateAnd(iexpr(64, 0), B.getInt64(BufReach / (w / 8) - 1)));
      return B.CreateInBoundsGEP(G.I8, o, B.getInt64(off));
    };
    auto read = [&](Value * o)
    {
      unsigned w;
      auto a = addr(o, w);
      auto l = B.CreateLoad(IntegerType::get(C, w), a);
      auto z = w < 64 ? B.CreateZExt(l, G.I64) : (Value *)l;
      B.CreateStore(B.CreateAdd(B.CreateMul(B.CreateLoad(G.I64, acc), B.getInt64(31)), z), acc);
    };
    auto op = [&]()
    {
      auto o = R.chance(70) ? p : q;
      unsigned w;
      switch (R.below(14))
      {
      default: read(o); break;
      case 5: case 6: case 7: { auto a = addr(o, w); B.CreateStore(iexpr(w, 1), a); break; }
      case 8:
        if (G.P.memIntrinsics) { B.CreateMemSet(R.chance(50) ? o : B.CreateInBoundsGEP(G.I8, o, B.getInt64(base)), iexpr(8, 0), B.getInt64(R.range(1, BufReach - 16)), MaybeAlign(1)); break; }
        [[fallthrough]];
      case 9:
        if (G.P.memIntrinsics) { B.CreateMemCpy(o, MaybeAlign(1), R.pick(G.constBufG), MaybeAlign(1), B.getInt64(R.range(1, 32))); break; }
        [[fallthrough]];
      case 10:
        if (G.P.memIntrinsics) { B.CreateMemMove(o, MaybeAlign(1), o == p ? q : p, MaybeAlign(1), B.getInt64(R.range(1, 32))); break; }
        [[fallthrough]];
      case 11: B.CreateCall(G.extFn("ext_poke", G.V, { G.PT, G.I32, G.I32 }), { o, B.getInt32(8 << R.below(3)), iexpr(32, 1) }); break;
      case 12: B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { o, B.getInt32(8 << R.below(3)) }); break;
      case 13: callSome(); break;
      }
    };
    std::function<void(int)> seq = [&](int d)
    {
      int n = d == 0 ? R.range(3, 6) : R.range(1, 3);
      for (int i = 0; i < n; i++)
      {
        int k = R.below(10);
        if (d >= 2 || k < 6 || depth >= 4)
          op();
        else if (k < 8)
        {
          auto t = bb("mp.t"), f = bb("mp.f"), e = bb("mp.e");
          auto c = bexpr(1);
          bool two = R.chance(50);
          B.CreateCondBr(c, t, two ? f : e);
          depth++;
          B.SetInsertPoint(t);
          seq(d + 1);
          B.CreateBr(e);
          if (two)
          {
            B.SetInsertPoint(f);
            seq(d + 1);
            B.CreateBr(e);
          }
          else
          {
            B.SetInsertPoint(f);
            B.CreateUnreachable();
            f->eraseFromParent();
          }
          depth--;
          B.SetInsertPoint(e);
        }
        else if (loopDepth < 2)
        {
          auto iv = entryAlloca(G.I32);
          B.CreateStore(B.getInt32(0), iv);
          auto l = bb("mp.l"), e = bb("mp.le");
          B.CreateBr(l);
          B.SetInsertPoint(l);
          depth++;
          loopDepth++;
          seq(d + 1);
          loopDepth--;
          depth--;
          auto nx = B.CreateAdd(B.CreateLoad(G.I32, iv), B.getInt32(1));
          B.CreateStore(nx, iv);
          B.CreateCondBr(B.CreateICmpSLT(nx, B.getInt32(R.range(1, 4))), l, e);
          B.SetInsertPoint(e);
        }
        else
          op();
      }
    };
    if (R.chance(70))
      read(p);
    seq(0);
    read(p);
    if (R.chance(50))
      read(q);
    ev(B.CreateLoad(G.I64, acc));
    if (heap)
      B.CreateCall(G.extFn("free", G.V, { G.PT }), { p });
  }
  void globalAssign()
  {
    auto g = R.pick(G.scalarG);
    unsigned w = g->getValueType()->getIntegerBitWidth();
    if (R.chance(40))
    { // g op= x
      auto old = B.CreateLoad(g->getValueType(), g);
      B.CreateStore(B.CreateAdd(old, iexpr(w, 1)), g);
    }
    else
      B.CreateStore(iexpr(w, 2), g);
  }
  void recAssign()
  {
    auto r = R.pick(recs);
    switch (R.below(5))
    {
    case 0: B.CreateStore(iexpr(32, 1), recField(r, 0)); break;
    case 1: B.CreateStore(iexpr(8, 1), recField(r, 1)); break;
    case 2: B.CreateStore(iexpr(64, 1), recField(r, 2)); break;
    case 3: B.CreateStore(iexpr(16, 1), recField(r, 3, R.below(4))); break;
    default:
      if (R.chance(50))
      {
        auto i = B.CreateAnd(iexpr(64, 1), B.getInt64(3));
        B.CreateStore(iexpr(16, 1), B.CreateInBoundsGEP(G.RecTy, r, { B.getInt32(0), B.getInt32(3), i }));
      }
      else
        B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { recField(r, 3), B.getInt32(8) });
    }
  }
  void nodeAssign()
  {
    auto n = nodeptr(1);
    switch (R.below(4))
    {
    case 0: B.CreateStore(iexpr(64, 1), B.CreateInBoundsGEP(G.NodeTy, n, { B.getInt32(0), B.getInt32(0) })); break;
    case 1: B.CreateStore(bufSptr(1), B.CreateInBoundsGEP(G.NodeTy, n, { B.getInt32(0), B.getInt32(1) })); break;
    case 2: B.CreateStore(nodeptr(1), B.CreateInBoundsGEP(G.NodeTy, n, { B.getInt32(0), B.getInt32(2) })); break;
    default: B.CreateStore(nodeptr(2), R.pick(nodeVars));
    }
  }
  void ptrAssign()
  {
    switch (R.below(6))
    {
    case 0: case 1: B.CreateStore(bufLptr(2), R.pick(bufLvars)); break;
    case 2: B.CreateStore(bufSptr(2), R.pick(bufSvars)); break;
    case 3:
      if (!tabs.empty())
      {
        B.CreateStore(bufLptr(1), B.CreateInBoundsGEP(G.PT, R.pick(tabs), B.CreateAnd(iexpr(64, 1), B.getInt64(3))));
        break;
      }
      [[fallthrough]];
    case 4: B.CreateStore(bufSptr(1), B.CreateInBoundsGEP(G.PT, R.pick(G.tabG), B.CreateAnd(iexpr(64, 1), B.getInt64(3)))); break;
    default:
      if (!tabParams.empty())
        B.CreateStore(bufSptr(1), B.CreateInBoundsGEP(G.PT, R.pick(tabParams), B.getInt64(R.below(4))));
      else if (G.fnVar && R.chance(50))
        B.CreateStore(R.pick(G.fnCands), G.fnVar);
    }
  }
  void callSome()
  {
    if (G.P.indirect && R.chance(30))
    {
      auto b = B.CreateLoad(G.I32, G.budget);
      auto doit = bb("icall.do"), done = bb("icall.done");
      B.CreateCondBr(B.CreateICmpSGT(b, B.getInt32(0)), doit, done);
      B.SetInsertPoint(doit);
      B.CreateStore(B.CreateSub(b, B.getInt32(1)), G.budget);
      Value * fp;
      if (R.chance(50))
        fp = B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.PT, G.fnTab, B.CreateAnd(iexpr(64, 1), B.getInt64(3))));
      else if (R.chance(50))
        fp = B.CreateLoad(G.PT, G.fnVar);
      else
        fp = B.CreateSelect(bexpr(1), R.pick(G.fnCands), R.pick(G.fnCands));
      auto r = B.CreateCall(FunctionType::get(G.I32, { G.I32, G.PT }, false), fp, { iexpr(32, 1), bufLptr(1) });
      B.CreateStore(r, R.pick(ivars[32]));
      B.CreateBr(done);
      B.SetInsertPoint(done);
      return;
    }
    if (G.fns.empty())
      return assignInt();
    size_t lo = isMain ? 0 : idx + 1;
    if (G.P.recursion && R.chance(25))
      callFn(R.pick(G.fns), true);
    else if (lo < G.fns.size())
      callFn(G.fns[lo + R.below(G.fns.size() - lo)], loopDepth > 0 || R.chance(30));
    else
      ev(anyInt(1));
  }
  void extCall()
  {
    switch (R.below(9))
    {
    case 0:
    {
      auto r = B.CreateCall(G.extFn("ext_i32", G.I32, { G.I32, G.I32 }), { B.getInt32(R.below(100)), iexpr(32, 2) });
      B.CreateStore(r, R.pick(ivars[32]));
      break;
    }
    case 1:
      B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { bufLptr(1), B.getInt32(8 << R.below(3)) });
      break;
    case 2:
      B.CreateCall(G.extFn("ext_poke", G.V, { G.PT, G.I32, G.I32 }), { bufLptr(1), B.getInt32(8 << R.below(3)), iexpr(32, 1) });
      break;
    case 3:
      if (G.P.varargs)
      {
        B.CreateCall(G.extFn("ext_va", G.I32, { G.I32 }, true), { B.getInt32(2), iexpr(64, 1), iexpr(64, 1) });
        break;
      }
      [[fallthrough]];
    case 4:
      if (G.P.extptr)
      {
        B.CreateStore(B.CreateCall(G.extFn("ext_ident", G.PT, { G.PT }), { bufSptr(1) }), R.pick(bufSvars));
        break;
      }
      [[fallthrough]];
    case 5:
      if (G.P.extptr)
      {
        B.CreateCall(G.extFn("ext_keep", G.V, { G.PT }), { bufSptr(1) });
        break;
      }
      [[fallthrough]];
    case 6:
      if (G.P.extptr)
      {
        B.CreateCall(G.extFn("ext_touch_kept", G.V, { G.I32 }), { iexpr(32, 1) });
        break;
      }
      [[fallthrough]];
    case 7:
      if (G.P.extptr && !G.fnCands.empty())
      {
        auto b = B.CreateLoad(G.I32, G.budget);
        auto doit = bb("cb.do"), done = bb("cb.done");
        B.CreateCondBr(B.CreateICmpSGT(b, B.getInt32(0)), doit, done);
        B.SetInsertPoint(doit);
        B.CreateStore(B.CreateSub(b, B.getInt32(1)), G.budget);
        auto r = B.CreateCall(G.extFn("ext_cb", G.I32, { G.PT, G.I32, G.PT }), { R.pick(G.fnCands), iexpr(32, 1), bufLptr(1) });
        B.CreateStore(r, R.pick(ivars[32]));
        B.CreateBr(done);
        B.SetInsertPoint(done);
        break;
      }
      [[fallthrough]];
    default:
    {
      // let outside code modify an exported global by name
      if (G.P.extptr)
        B.CreateCall(G.extFn("ext_touch_exported", G.V, { G.I32 }), { iexpr(32, 1) });
      else
        ev(anyInt(1));
    }
    }
  }
  void memIntr()
  {
    auto a = bufLptr(1);
    switch (R.below(4))
    {
    case 0: B.CreateMemSet(a, iexpr(8, 1), B.getInt64(R.range(1, 32)), MaybeAlign(1), R.chance(20) && false); break;
    case 1:
    {
      // non-overlapping: copy from the constant buffer
      auto s = R.pick(G.constBufG);
      B.CreateMemCpy(a, MaybeAlign(1), s, MaybeAlign(1), R.chance(50) ? (Value *)B.getInt64(R.range(0, 32)) : B.CreateAnd(iexpr(64, 1), B.getInt64(31)), G.P.volatiles && R.chance(15));
      break;
    }
    case 2:
      B.CreateMemMove(a, MaybeAlign(1), bufLptr(1), MaybeAlign(1), B.getInt64(R.range(1, 32)));
      break;
    default:
    {
      auto b2 = R.pick(bufs);
      auto s = R.pick(G.bufG);
      B.CreateMemCpy(b2, MaybeAlign(8), s, MaybeAlign(8), B.getInt64(8 * R.range(1, 8)));
    }
    }
  }
  void volatileAcc()
  {
    if (R.chance(50))
    {
      auto g = R.pick(G.scalarG);
      unsigned w = g->getValueType()->getIntegerBitWidth();
      if (R.chance(50))
        B.CreateStore(iexpr(w, 1), g, true);
      else
        B.CreateStore(B.CreateLoad(g->getValueType(), g, true), R.pick(ivars[w]));
    }
    else
    {
      auto p = bufAddr(bufLptr(1), 4);
      if (R.chance(50))
        B.CreateStore(iexpr(32, 1), p, true);
      else
      {
        auto l = B.CreateLoad(G.I32, p, true);
        if (R.chance(60))
          B.CreateStore(l, R.pick(ivars[32]));
      }
    }
  }
  void guardedIdiom()
  {
    auto t = bb("g.then"), e = bb("g.end");
    if (R.chance(50))
    { // division guarded by a test of the divisor
      auto d = iexpr(32, 2);
      auto c = B.CreateICmpNE(d, B.getInt32(0));
      if (R.chance(50))
        c = B.CreateAnd(c, B.CreateICmpNE(d, B.getInt32(-1)));
      B.CreateCondBr(c, t, e);
      B.SetInsertPoint(t);
      auto n = iexpr(32, 1);
      auto q = R.chance(50) ? B.CreateUDiv(n, d) : B.CreateURem(n, d);
      B.CreateStore(q, R.pick(ivars[32]));
    }
    else
    { // pointer guarded by a null test
      auto p = B.CreateSelect(bexpr(2), bufLptr(1), ConstantPointerNull::get(G.PT));
      B.CreateCondBr(B.CreateICmpNE(p, ConstantPointerNull::get(G.PT)), t, e);
      B.SetInsertPoint(t);
      auto a = bufAddr(p, 4);
      if (R.chance(50))
        B.CreateStore(B.CreateLoad(G.I32, a), R.pick(ivars[32]));
      else
        B.CreateStore(iexpr(32, 1), a);
    }
    B.CreateBr(e);
    B.SetInsertPoint(e);
  }
  void heapIdiom()
  {
    auto p = B.CreateCall(G.extFn("malloc", G.PT, { G.I64 }), { R.chance(70) ? (Value *)B.getInt64(64) : B.CreateAdd(B.CreateAnd(iexpr(64, 1), B.getInt64(63)), B.getInt64(64)) });
    initMem(p, 64);
    if (R.chance(50))
    { // escapes, never freed
      if (R.chance(50))
        B.CreateStore(p, R.pick(bufSvars));
      else
        B.CreateStore(p, B.CreateInBoundsGEP(G.PT, R.pick(G.tabG), B.getInt64(R.below(4))));
      return;
    }
    int n = R.range(1, 3);
    for (int i = 0; i < n; i++)
      switch (R.below(3))
      {
      case 0: B.CreateStore(iexpr(32, 1), bufAddr(p, 4)); break;
      case 1: B.CreateStore(B.CreateLoad(G.I64, bufAddr(p, 8)), R.pick(ivars[64])); break;
      default: B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { p, B.getInt32(32) });
      }
    B.CreateCall(G.extFn("free", G.V, { G.PT }), { p });
  }
  // a local array without initial value that is only read where it has been written: in a later iteration of the
  // (possibly nested) loop that writes it, at an address that usually changes from one iteration to the next
  void windowIdiom()
  {
    static const unsigned ws[] = { 8, 16, 32, 64 };
    unsigned w = ws[R.below(4)];
    auto t = IntegerType::get(C, w);
    int kind = R.below(6), N = 1 << R.range(1, 2), lag = R.range(1, 3), trip = R.range(2, 7);
    auto arr = entryAlloca(ArrayType::get(t, 16));
    auto acc = entryAlloca(G.I64);
    B.CreateStore(B.getInt64(0), acc);
    auto pre = B.GetInsertBlock();
    auto base = kind == 2 && R.chance(50) ? B.CreateInBoundsGEP(t, arr, B.getInt64(lag)) : (Value *)arr;
    auto body = bb("w.body"), rd = bb("w.read"), mid = bb("w.mid"), exit = bb("w.exit");
    BasicBlock *ih = nullptr, *ix = nullptr;
    B.CreateBr(body);
    B.SetInsertPoint(body);
    auto k = B.CreatePHI(G.I64, 2);
    k->addIncoming(B.getInt64(0), pre);
    PHINode * pp = nullptr;
    if (kind == 2)
    {
      pp = B.CreatePHI(G.PT, 2);
      pp->addIncoming(base, pre);
    }
    Value * j = nullptr;
    PHINode * jp = nullptr;
    if (kind == 3)
    {
      ih = bb("w.inner"), ix = bb("w.innerexit");
      B.CreateBr(ih);
      auto ob = B.GetInsertBlock();
      B.SetInsertPoint(ih);
      jp = B.CreatePHI(G.I64, 2);
      jp->addIncoming(B.getInt64(0), ob);
      j = jp;
    }
    Value *ra, *wa, *first; // the addresses read and written, and the first iteration that reads
    auto at = [&](Value * i) { return B.CreateInBoundsGEP(t, arr, i); };
    switch (kind)
    {
    case 0: // ring buffer
      ra = at(B.CreateAnd(k, B.getInt64(N - 1)));
      wa = R.chance(50) ? ra : at(B.CreateAnd(k, B.getInt64(N - 1)));
      first = B.getInt64(N);
      break;
    case 1: // writes ahead
      ra = at(k);
      wa = R.chance(50) ? B.CreateInBoundsGEP(t, ra, B.getInt64(lag)) : at(B.CreateAdd(k, B.getInt64(lag)));
      first = B.getInt64(lag);
      break;
    case 2: // moving pointer, reads behind or writes ahead
      wa = base == arr ? (Value *)B.CreateInBoundsGEP(t, pp, B.getInt64(lag)) : pp;
      ra = base == arr ? (Value *)pp : B.CreateInBoundsGEP(t, pp, B.getInt64(-lag));
      first = B.getInt64(lag);
      break;
    case 3: // the inner loop visits every element in each iteration of the outer loop
      ra = wa = at(j);
      first = B.getInt64(1);
      break;
    case 4: // reversal: the second half reads the first
      ra = at(B.CreateSub(B.getInt64(2 * trip - 1), k));
      wa = at(k);
      first = B.getInt64(trip);
      trip *= 2;
      break;
    default: // constant element
      ra = at(B.getInt64(lag));
      wa = R.chance(50) ? ra : at(B.getInt64(lag));
      first = B.getInt64(1);
    }
    auto write = [&](Value * v)
    {
      if (R.chance(30))
      {
        auto a = bb("w.a"), b = bb("w.b"), e = bb("w.e");
        B.CreateCondBr(bexpr(1), a, b);
        B.SetInsertPoint(a);
        B.CreateStore(v, wa);
        B.CreateBr(e);
        B.SetInsertPoint(b);
        B.CreateStore(B.CreateXor(v, ConstantInt::get(t, R.range(1, 90))), wa);
        B.CreateBr(e);
        B.SetInsertPoint(e);
      }
      else
        B.CreateStore(v, wa);
      if (R.chance(20))
        B.CreateStore(ConstantInt::get(t, R.below(99)), B.CreateInBoundsGEP(t, arr, B.getInt64(15)));
      if (R.chance(20))
      {
        auto l = B.CreateLoad(t, wa);
        B.CreateStore(B.CreateXor(B.CreateLoad(G.I64, acc), w < 64 ? B.CreateZExt(l, G.I64) : (Value *)l), acc);
      }
    };
    bool writeFirst = kind == 1 && R.chance(40);
    auto v0 = B.CreateAdd(B.CreateMul(k, B.getInt64(R.range(3, 40))), j ? B.CreateMul(j, B.getInt64(7)) : (Value *)B.getInt64(R.range(0, 9)));
    auto v = w < 64 ? B.CreateTrunc(v0, t) : v0;
    if (R.chance(40))
      v = B.CreateXor(v, iexpr(w, 1));
    if (writeFirst)
      write(v);
    auto c = B.CreateICmpUGE(k, first);
    B.CreateCondBr(c, rd, mid);
    B.SetInsertPoint(rd);
    auto l = B.CreateLoad(t, ra);
    auto z = w < 64 ? B.CreateZExt(l, G.I64) : (Value *)l;
    B.CreateStore(B.CreateAdd(B.CreateMul(B.CreateLoad(G.I64, acc), B.getInt64(31)), z), acc);
    if (R.chance(30))
      ev(z);
    B.CreateBr(mid);
    B.SetInsertPoint(mid);
    if (!writeFirst && (kind != 4 || R.chance(50)))
      write(v);
    else if (!writeFirst)
    { // only the first half writes
      auto a = bb("w.wr"), e = bb("w.wrend");
      B.CreateCondBr(c, e, a);
      B.SetInsertPoint(a);
      write(v);
      B.CreateBr(e);
      B.SetInsertPoint(e);
    }
    if (kind == 3)
    {
      auto jn = B.CreateAdd(jp, B.getInt64(1));
      jp->addIncoming(jn, B.GetInsertBlock());
      B.CreateCondBr(B.CreateICmpULT(jn, B.getInt64(N)), ih, ix);
      B.SetInsertPoint(ix);
    }
    auto kn = B.CreateAdd(k, B.getInt64(1));
    k->addIncoming(kn, B.GetInsertBlock());
    if (pp)
      pp->addIncoming(B.CreateInBoundsGEP(t, pp, B.getInt64(1)), B.GetInsertBlock());
    B.CreateCondBr(B.CreateICmpULT(kn, B.getInt64(trip)), body, exit);
    B.SetInsertPoint(exit);
    ev(B.CreateLoad(G.I64, acc));
  }
  // a loop that obtains a pointer in each iteration and keeps the ones of the previous iterations in variables
  // that have no (or an unrelated) value at first
  // memory of a size that is only known at run time, and that might be huge if the guard does not hold
  void dynIdiom()
  {
    static const unsigned ws[] = { 8, 16, 32, 64 };
    unsigned w = ws[R.below(4)], cw = R.chance(60) ? 64 : 32;
    auto t = IntegerType::get(C, w);
    auto n = iexpr(cw, 1);
    bool guard = R.chance(60);
    auto done = bb("d.done");
    if (!guard || R.chance(60))
      n = B.CreateAnd(n, ConstantInt::get(n->getType(), R.chance(50) ? 7 : 15));
    if (guard)
    {
      auto use = bb("d.use");
      B.CreateCondBr(B.CreateICmpULT(n, ConstantInt::get(n->getType(), R.range(1, 12))), use, done);
      B.SetInsertPoint(use);
    }
    if (!R.chance(30))
      n = B.CreateAdd(n, ConstantInt::get(n->getType(), 1));
    else
      n = B.CreateOr(n, ConstantInt::get(n->getType(), 1));
    auto a = B.CreateAlloca(t, n);
    a->setAlignment(Align(8));
    auto n64 = B.CreateZExt(n, G.I64);
    auto last = B.CreateInBoundsGEP(t, a, B.CreateSub(n64, B.getInt64(1)));
    auto acc = entryAlloca(G.I64);
    auto loop = bb("d.init"), rest = bb("d.rest");
    auto pre = B.GetInsertBlock();
    B.CreateBr(loop);
    B.SetInsertPoint(loop);
    auto i = B.CreatePHI(G.I64, 2);
    i->addIncoming(B.getInt64(0), pre);
    B.CreateStore(B.CreateTrunc(B.CreateMul(i, B.getInt64(R.range(1, 99))), t), B.CreateInBoundsGEP(t, a, i));
    auto i1 = B.CreateAdd(i, B.getInt64(1));
    i->addIncoming(i1, loop);
    B.CreateCondBr(B.CreateICmpULT(i1, n64), loop, rest);
    B.SetInsertPoint(rest);
    for (int k = R.range(1, 3); k-- > 0;)
      switch (R.below(5))
      {
      case 0: B.CreateStore(iexpr(w, 1), last); break;
      case 1: B.CreateStore(iexpr(w, 1), a); break;
      case 2: B.CreateStore(B.CreateLoad(t, last), a); break;
      case 3: B.CreateStore(B.CreateLoad(t, a), last); break;
      default:
        if (R.chance(50))
          B.CreateStore(iexpr(w, 1), R.pick(bufs));
        else
          B.CreateCall(G.extFn("ext_poke", G.V, { G.PT, G.I32, G.I32 }), { a, B.CreateTrunc(B.CreateMul(n64, B.getInt64(w / 8)), G.I32), B.getInt32(R.below(99)) });
      }
    B.CreateStore(B.CreateAdd(B.CreateZExt(B.CreateLoad(t, a), G.I64), B.CreateMul(B.CreateZExt(B.CreateLoad(t, last), G.I64), B.getInt64(3))), acc);
    ev(B.CreateLoad(G.I64, acc));
    if (R.chance(40))
      B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { a, B.CreateTrunc(B.CreateMul(n64, B.getInt64(w / 8)), G.I32) });
    B.CreateBr(done);
    B.SetInsertPoint(done);
  }
  void prevIdiom()
  {
    int kind = R.below(5), trip = R.range(2, 5);
    auto acc = entryAlloca(G.I64);
    B.CreateStore(B.getInt64(0), acc);
    Value * tab = nullptr;
    if (kind == 1)
    { // a table of pointers to distinct buffers
      tab = entryAlloca(ArrayType::get(G.PT, 4));
      for (int i = 0; i < 4; i++)
        B.CreateStore(i < 2 ? R.pick(bufs) : R.pick(G.bufG), B.CreateInBoundsGEP(G.PT, tab, B.getInt64(i)));
    }
    Value * arr = nullptr;
    if (kind == 2)
    {
      arr = entryAlloca(ArrayType::get(G.I64, 8));
      initMem(arr, 64);
    }
    if (kind == 4 && !(G.P.heap && loopDepth == 0))
      kind = 3;
    unsigned off = R.chance(60) ? 0 : 8;
    Value * small = nullptr;
    switch (R.below(3))
    {
    case 0: small = entryAlloca(G.I8); B.CreateStore(B.getInt8(1), small); break;
    case 1: small = ConstantPointerNull::get(G.PT); break;
    default: small = UndefValue::get(G.PT);
    }
    auto undef = R.chance(70) ? (Value *)UndefValue::get(G.PT) : small;
    auto pre = B.GetInsertBlock();
    auto body = bb("v.body"), rd = bb("v.read"), mid = bb("v.mid"), rd2 = bb("v.read2"), mid2 = bb("v.mid2"), exit = bb("v.exit");
    B.CreateBr(body);
    B.SetInsertPoint(body);
    auto k = B.CreatePHI(G.I64, 2);
    auto prev = B.CreatePHI(G.PT, 2), prev2 = B.CreatePHI(G.PT, 2);
    k->addIncoming(B.getInt64(0), pre);
    prev->addIncoming(undef, pre);
    prev2->addIncoming(R.chance(70) ? undef : small, pre);
    Value * q;
    switch (kind)
    {
    case 0: q = bufLptr(1); if (!R.chance(50)) break; [[fallthrough]];
    case 1:
      if (!tab)
        tab = R.pick(G.tabG), off = 0;
      q = B.CreateLoad(G.PT, B.CreateInBoundsGEP(G.PT, tab, B.CreateAnd(k, B.getInt64(3))));
      break;
    case 2: q = B.CreateInBoundsGEP(G.I64, arr, B.CreateAnd(B.CreateMul(k, B.getInt64(R.range(1, 3))), B.getInt64(3))); break;
    case 3: q = B.CreateAlloca(ArrayType::get(G.I64, 2)); break;
    default: q = B.CreateCall(G.extFn("malloc", G.PT, { G.I64 }), { B.getInt64(64) });
    }
    if (kind >= 3)
      for (int i = 0; i < 2; i++)
        B.CreateStore(iexpr(64, 1), B.CreateInBoundsGEP(G.I64, q, B.getInt64(i)));
    auto field = [&](Value * p, unsigned o) { return o ? B.CreateInBoundsGEP(G.I8, p, B.getInt64(o)) : p; };
    auto read = [&](Value * p)
    {
      auto l = B.CreateLoad(G.I64, p);
      B.CreateStore(B.CreateAdd(B.CreateMul(B.CreateLoad(G.I64, acc), B.getInt64(31)), l), acc);
    };
    unsigned o1 = R.chance(70) ? 0 : off, o2 = R.chance(70) ? 0 : off;
    if (R.chance(70))
      B.CreateStore(B.CreateAdd(k, B.getInt64(R.below(99))), field(q, o1));
    B.CreateCondBr(B.CreateICmpUGE(k, B.getInt64(1)), rd, mid);
    B.SetInsertPoint(rd);
    if (R.chance(30))
      B.CreateStore(iexpr(64, 1), field(prev, o2));
    if (R.chance(80))
      read(field(prev, o2));
    if (R.chance(50))
      read(field(q, o1));
    B.CreateBr(mid);
    B.SetInsertPoint(mid);
    B.CreateCondBr(B.CreateICmpUGE(k, B.getInt64(2)), rd2, mid2);
    B.SetInsertPoint(rd2);
    if (R.chance(30))
      B.CreateStore(B.CreateMul(k, B.getInt64(5)), field(prev2, o1));
    if (R.chance(50))
      read(field(prev, o2));
    if (R.chance(50))
      read(field(prev2, o1));
    B.CreateBr(mid2);
    B.SetInsertPoint(mid2);
    if (R.chance(30))
      B.CreateStore(B.CreateMul(k, B.getInt64(3)), field(q, o2));
    auto kn = B.CreateAdd(k, B.getInt64(1));
    k->addIncoming(kn, B.GetInsertBlock());
    prev->addIncoming(q, B.GetInsertBlock());
    prev2->addIncoming(prev, B.GetInsertBlock());
    B.CreateCondBr(B.CreateICmpULT(kn, B.getInt64(trip)), body, exit);
    B.SetInsertPoint(exit);
    if (R.chance(70))
      B.CreateStore(iexpr(64, 1), field(q, o1));
    if (R.chance(70))
      read(field(prev, o2)); // that of the last but one iteration: all loops iterate at least twice
    if (R.chance(50))
      read(field(q, o1));
    ev(B.CreateLoad(G.I64, acc));
  }
  void undefIdiom()
  {
    switch (R.below(3))
    {
    case 0:
    { // value defined only under a condition and used only under the same condition
      auto v = entryAlloca(G.I32);
      auto cv = entryAlloca(G.I1);
      B.CreateStore(bexpr(2), cv);
      auto t = bb("u.def"), m = bb("u.mid"), u = bb("u.use"), e = bb("u.end");
      B.CreateCondBr(B.CreateLoad(G.I1, cv), t, m);
      B.SetInsertPoint(t);
      B.CreateStore(iexpr(32, 2), v);
      B.CreateBr(m);
      B.SetInsertPoint(m);
      if (R.chance(60))
        stmt2();
      B.CreateCondBr(B.CreateLoad(G.I1, cv), u, e);
      B.SetInsertPoint(u);
      ev(B.CreateLoad(G.I32, v));
      B.CreateBr(e);
      B.SetInsertPoint(e);
      break;
    }
    case 1:
    { // select between a value and undef, used only when defined
      auto c = bexpr(1);
      auto x = iexpr(32, 1);
      auto s = B.CreateSelect(c, x, UndefValue::get(G.I32));
      auto t = bb("u.t"), e = bb("u.e");
      B.CreateCondBr(c, t, e);
      B.SetInsertPoint(t);
      B.CreateStore(s, R.pick(ivars[32]));
      B.CreateBr(e);
      B.SetInsertPoint(e);
      break;
    }
    default:
    { // and with 0 after freeze
      auto f = B.CreateFreeze(UndefValue::get(G.I32));
      B.CreateStore(B.CreateXor(f, f), R.pick(ivars[32]));
    }
    }
  }
  void stmt2()
  {
    if (stmts > 0)
      stmt();
    else
      assignInt();
  }
  void ifElse()
  {
    auto t = bb("if.then"), f = R.chance(60) ? bb("if.else") : nullptr, e = bb("if.end");
    auto c = bexpr(2);
    B.CreateCondBr(c, t, f ? f : e);
    depth++;
    B.SetInsertPoint(t);
    block(R.range(1, 3));
    B.CreateBr(e);
    if (f)
    {
      B.SetInsertPoint(f);
      block(R.range(1, 3));
      B.CreateBr(e);
    }
    depth--;
    B.SetInsertPoint(e);
  }
  void switchStmt()
  {
    static const unsigned ws[] = { 32, 8, 64, 32, 16 };
    unsigned w = ws[R.below(5)];
    Value * v = iexpr(w, 2);
    bool small = R.chance(70);
    if (small)
      v = B.CreateAnd(v, ConstantInt::get(C, APInt(w, 7)));
    auto e = bb("sw.end");
    auto def = R.chance(70) ? bb("sw.def") : e;
    int n = R.range(1, 5);
    auto sw = B.CreateSwitch(v, def, n);
    std::vector<BasicBlock *> cases;
    std::set<uint64_t> used;
    for (int i = 0; i < n; i++)
    {
      uint64_t k = small ? R.below(8) : (G.interesting(w).getZExtValue());
      if (!used.insert(k).second)
        continue;
      BasicBlock * t;
      if (!cases.empty() && R.chance(25))
        t = R.pick(cases);
      else if (R.chance(10))
        t = e;
      else
      {
        t = bb("sw.case");
        cases.push_back(t);
      }
      sw->addCase(ConstantInt::get(cast<IntegerType>(v->getType()), k), t);
    }
    depth++;
    if (def != e)
      cases.push_back(def);
    auto sb = breakBB;
    for (size_t i = 0; i < cases.size(); i++)
    {
      B.SetInsertPoint(cases[i]);
      block(R.range(1, 2));
      if (i + 1 < cases.size() && R.chance(25))
        B.CreateBr(cases[i + 1]); // fall through
      else
        B.CreateBr(e);
    }
    breakBB = sb;
    depth--;
    B.SetInsertPoint(e);
  }
  void loop()
  {
    loopDepth++;
    depth++;
    auto iv = B.CreateAlloca(G.I32); // an alloca in a loop body: fine but grows the stack; move to entry
    iv->moveBefore(&*entry->getFirstInsertionPt());
    int trip = R.range(0, G.P.loopTrip);
    int step = R.chance(70) ? 1 : R.range(1, 3);
    bool down = R.chance(25);
    bool doWhile = R.chance(35);
    Value * bound = B.getInt32(trip * step);
    if (R.chance(35))
      bound = B.CreateAnd(iexpr(32, 1), B.getInt32(7));
    int start = R.chance(70) ? 0 : R.range(-3, 3);
    auto head = bb("l.head"), body = bb("l.body"), latch = bb("l.latch"), exit = bb("l.exit");
    // optional secondary recurrences
    Value * acc = nullptr;
    int accKind = R.below(6);
    if (R.chance(60))
    {
      acc = entryAlloca(R.chance(50) ? G.I32 : G.I64);
      auto at = cast<AllocaInst>(acc)->getAllocatedType();
      B.CreateStore(iexpr(at->getIntegerBitWidth(), 1), acc);
    }
    Value * pv = nullptr;
    if (R.chance(25))
    {
      pv = entryAlloca(G.PT);
      B.CreateStore(R.pick(bufs), pv);
    }
    auto guard = entryAlloca(G.I32);
    B.CreateStore(B.getInt32(start), iv);
    B.CreateStore(B.getInt32(12), guard);
    Value * bnd = entryAlloca(G.I32);
    B.CreateStore(bound, bnd);
    bool constBound = isa<Constant>(bound) && R.chance(60);
    static const CmpInst::Predicate ups[] = { CmpInst::ICMP_SLT, CmpInst::ICMP_SLE, CmpInst::ICMP_ULT, CmpInst::ICMP_NE };
    auto cond = [&](Value * i) -> Value *
    {
      Value * bv = constBound ? bound : B.CreateLoad(G.I32, bnd);
      if (down)
        return B.CreateICmpSGT(i, B.CreateSub(B.getInt32(start), bv));
      auto pr = ups[R.below(3)];
      if (constBound && step == 1 && start <= 0 && !doWhile && R.chance(30))
        pr = CmpInst::ICMP_NE;
      if (pr == CmpInst::ICMP_ULT && start < 0)
        pr = CmpInst::ICMP_SLT;
      return B.CreateICmp(pr, i, bv);
    };
    B.CreateBr(doWhile ? body : head);
    B.SetInsertPoint(head);
    if (!doWhile)
      B.CreateCondBr(cond(B.CreateLoad(G.I32, iv)), body, exit);
    else
      B.CreateBr(body);
    B.SetInsertPoint(body);
    auto sb = breakBB, sc = contBB;
    breakBB = exit;
    contBB = latch;
    constLoopVars.push_back(iv);
    block(R.range(1, 4));
    if (acc)
    {
      auto at = cast<AllocaInst>(acc)->getAllocatedType();
      unsigned w = at->getIntegerBitWidth();
      auto a = B.CreateLoad(at, acc);
      Value * i = B.CreateLoad(G.I32, iv);
      if (w == 64)
        i = B.CreateSExt(i, G.I64);
      Value * n;
      switch (accKind)
      {
      case 0: n = B.CreateAdd(a, i); break;
      case 1: n = B.CreateAdd(a, ConstantInt::get(at, R.range(1, 9))); break;
      case 2: n = B.CreateMul(a, ConstantInt::get(at, 3)); break;
      case 3: n = B.CreateSub(a, B.CreateMul(i, ConstantInt::get(at, R.range(2, 7)))); break;
      case 4: n = B.CreateAdd(a, B.CreateMul(i, loadVar(w))); break;
      default: n = B.CreateXor(a, B.CreateShl(i, ConstantInt::get(at, R.below(5))));
      }
      B.CreateStore(n, acc);
      if (R.chance(40))
        ev(n);
      if (R.chance(30))
      { // array walk indexed by the induction variable
        auto ix = B.CreateAnd(i, ConstantInt::get(i->getType(), 7));
        auto p = B.CreateInBoundsGEP(G.I32, R.pick(bufs), ix);
        B.CreateStore(B.CreateAdd(B.CreateLoad(G.I32, p), B.getInt32(R.below(9))), p);
      }
    }
    if (pv)
    {
      auto p = B.CreateLoad(G.PT, pv);
      B.CreateStore(iexpr(8, 1), p);
      B.CreateStore(B.CreateInBoundsGEP(R.chance(50) ? G.I8 : G.I16, p, B.getInt64(1)), pv);
    }
    B.CreateBr(latch);
    constLoopVars.pop_back();
    breakBB = sb;
    contBB = sc;
    B.SetInsertPoint(latch);
    Value * i2 = B.CreateLoad(G.I32, iv);
    i2 = down ? B.CreateSub(i2, B.getInt32(step)) : B.CreateAdd(i2, B.getInt32(step));
    B.CreateStore(i2, iv);
    // a safety net against unexpected trip counts (bounds above 12 iterations)
    bool risky = !(isa<Constant>(bound) && constBound);
    risky = true;
    auto back = doWhile ? body : head;
    if (risky && !(constBound && !doWhile && !down && R.chance(70)))
    {
      auto gl = B.CreateSub(B.CreateLoad(G.I32, guard), B.getInt32(1));
      B.CreateStore(gl, guard);
      auto g = B.CreateICmpSGT(gl, B.getInt32(0));
      if (doWhile)
        B.CreateCondBr(B.CreateAnd(g, cond(B.CreateLoad(G.I32, iv))), back, exit);
      else
        B.CreateCondBr(g, back, exit);
    }
    else if (doWhile)
      B.CreateCondBr(cond(i2), back, exit);
    else
      B.CreateBr(back);
    loopDepth--;
    depth--;
    B.SetInsertPoint(exit);
    if (acc && R.chance(50))
      ev(B.CreateLoad(cast<AllocaInst>(acc)->getAllocatedType(), acc));
    if (doWhile)
    { // head is unused
      head->replaceAllUsesWith(body);
      head->eraseFromParent();
    }
  }
  // unstructured control flow: blocks with arbitrary edges
  // ------------------------------------------------- canonical induction variable loops
  // A do-while (or header tested) loop in SSA form with several related recurrences.
  void ivLoop(Value * outerIv = nullptr, int nest = 0)
  {
    struct IV { PHINode * phi; int kind; unsigned w; bool ptr; Value * room; };
    static const unsigned ws[] = { 64, 64, 64, 32, 32, 16, 8 };
    int trip = R.range(1, 8);
    unsigned mw = ws[R.below(7)];
    // values that are invariant in the loop
    std::map<unsigned, std::vector<Value *>> inv;
    for (unsigned w : { 8u, 16u, 32u, 64u })
      for (int i = 0; i < 2; i++)
      {
        Value * v = R.chance(50) ? loadVar(w) : (Value *)ci(w, R.range(-5, 20));
        if (w == 8 && R.chance(40))
          v = ci(8, R.next());
        inv[w].push_back(v);
      }
    if (outerIv && !outerIv->getType()->isPointerTy())
      inv[outerIv->getType()->getIntegerBitWidth()].push_back(outerIv);
    Value * buf = R.pick(bufs);
    auto pre = B.GetInsertBlock();
    auto body = bb("iv.body"), exit = bb("iv.exit");
    bool doWhile = R.chance(75);
    BasicBlock * head = doWhile ? nullptr : bb("iv.head");
    // the counter: start, step and bound are constants such that exactly `trip` iterations are executed
    int step = R.chance(65) ? 1 : R.range(2, 4);
    bool down = R.chance(25);
    int start = R.chance(60) ? 0 : R.range(-4, 9);
    bool varStart = R.chance(20);
    Value * startV = ci(mw, start);
    if (varStart)
      startV = B.CreateAnd(R.pick(inv[mw]), ci(mw, 7));
    Value * endV = varStart ? (down ? B.CreateSub(startV, ci(mw, trip * step)) : B.CreateAdd(startV, ci(mw, trip * step)))
                            : (Value *)ci(mw, down ? start - trip * step : start + trip * step);
    int ordinal = R.below(4);
    // index variable used for addresses: always 64 bits, 0 .. trip-1
    std::vector<Instruction *> phisInit;
    B.CreateBr(doWhile ? body : head);
    B.SetInsertPoint(doWhile ? body : head);
    auto newPhi = [&](Type * t, Value * init)
    {
      auto p = B.CreatePHI(t, 2);
      p->addIncoming(init, pre);
      return p;
    };
    auto cnt = newPhi(IntegerType::get(C, mw), startV);
    auto idx = newPhi(G.I64, ci(64, 0));
    std::vector<IV> ivs;
    int n = R.range(1, 5);
    for (int i = 0; i < n; i++)
    {
      IV v;
      v.ptr = R.chance(20);
      v.w = R.chance(60) ? mw : ws[R.below(7)];
      v.kind = R.below(14);
      if (v.ptr)
        v.phi = newPhi(G.PT, buf);
      else
        v.phi = newPhi(IntegerType::get(C, v.w), R.chance(40) ? (Value *)ci(v.w, R.range(-3, 12)) : R.pick(inv[v.w]));
      ivs.push_back(v);
    }
    auto cmp = [&](Value * c, bool afterStep)
    {
      // true: one more iteration
      Value * e = endV;
      (void)afterStep;
      switch (ordinal)
      {
      case 0: return B.CreateICmpNE(c, e);
      case 1: return down ? B.CreateICmpSGT(c, e) : B.CreateICmpSLT(c, e);
      case 2:
        if (!down && !varStart && start >= 0)
          return B.CreateICmpULT(c, e);
        return B.CreateICmpNE(e, c);
      default: return down ? B.CreateICmpSLT(e, c) : B.CreateICmpSGT(e, c);
      }
    };
    if (!doWhile)
    {
      B.CreateCondBr(cmp(cnt, false), body, exit);
      B.SetInsertPoint(body);
    }
    auto anyOf = [&](unsigned w) -> Value *
    {
      std::vector<Value *> c;
      if (cnt->getType()->getIntegerBitWidth() == w)
        c.push_back(cnt);
      if (w == 64)
        c.push_back(idx);
      for (auto & v : ivs)
        if (!v.ptr && v.w == w)
          c.push_back(v.phi);
      if (c.empty() || R.chance(15))
        return R.pick(inv[w]);
      return R.pick(c);
    };
    std::function<Value *(unsigned, int)> lin = [&](unsigned w, int d) -> Value *
    {
      if (d <= 0)
        return anyOf(w);
      switch (R.below(9))
      {
      case 0: return B.CreateAdd(lin(w, d - 1), ci(w, R.range(-9, 9)));
      case 1: return B.CreateAdd(lin(w, d - 1), lin(w, d - 1));
      case 2: return B.CreateSub(lin(w, d - 1), R.pick(inv[w]));
      case 3: case 4: return B.CreateMul(lin(w, d - 1), ci(w, R.range(2, 12)));
      case 5: return B.CreateMul(R.pick(inv[w]), lin(w, d - 1));
      case 6: return B.CreateShl(lin(w, d - 1), ci(w, R.below(4)));
      case 7: return B.CreateSub(ci(w, R.range(0, 50)), lin(w, d - 1));
      default: return anyOf(w);
      }
    };
    if (R.chance(25))
      block(1);
    int uses = R.range(1, 4);
    for (int i = 0; i < uses; i++)
    {
      unsigned w = ws[R.below(7)];
      switch (R.below(6))
      {
      case 0: case 1: case 2:
        ev(lin(w, R.range(1, 3)));
        break;
      case 3:
      { // array access by the bounded index
        auto p = R.chance(50) ? B.CreateInBoundsGEP(G.I32, buf, idx)
                              : B.CreateInBoundsGEP(ArrayType::get(G.I32, 8), buf, { ci(64, 0), idx });
        auto v = B.CreateLoad(G.I32, p);
        B.CreateStore(B.CreateAdd(v, anyOf(32)), p);
        break;
      }
      case 4:
      { // scaled index: idx*2+1 over bytes/shorts
        auto ix = B.CreateAdd(B.CreateMul(idx, ci(64, 2)), ci(64, R.below(2)));
        auto p = B.CreateInBoundsGEP(R.chance(50) ? G.I8 : G.I16, buf, ix);
        B.CreateStore(anyOf(8), p);
        break;
      }
      default:
      {
        auto & vs = ivars[w];
        if (!vs.empty())
          B.CreateStore(lin(w, 2), R.pick(vs));
      }
      }
    }
    for (auto & v : ivs)
      if (v.ptr)
      {
        B.CreateStore(anyOf(8), v.phi);
        if (R.chance(50))
          ev(B.CreateLoad(G.I8, B.CreateInBoundsGEP(G.I8, v.phi, ci(64, R.below(4)))));
      }
    if (nest < 2 && R.chance(nest ? 20 : 30))
    {
      Value * o = R.chance(50) ? (Value *)idx : (Value *)cnt;
      for (auto & v : ivs)
        if (!v.ptr && R.chance(30))
          o = v.phi;
      loopDepth++;
      ivLoop(o, nest + 1);
      loopDepth--;
    }
    // recurrences
    std::vector<Value *> next;
    for (size_t i = 0; i < ivs.size(); i++)
    {
      auto & v = ivs[i];
      Value * x = v.phi;
      if (v.ptr)
      {
        switch (v.kind % 4)
        {
        case 0: next.push_back(B.CreateInBoundsGEP(G.I8, x, ci(64, R.range(1, 4)))); break;
        case 1: next.push_back(B.CreateInBoundsGEP(G.I16, x, ci(64, R.range(1, 2)))); break;
        case 2: next.push_back(B.CreateInBoundsGEP(G.I32, x, ci(64, 1))); break;
        default: next.push_back(B.CreateInBoundsGEP(G.I8, buf, idx)); break;
        }
        continue;
      }
      auto t = IntegerType::get(C, v.w);
      Value * o = nullptr; // another variable of the same width
      for (auto & u : ivs)
        if (&u != &v && !u.ptr && u.w == v.w && (!o || R.chance(50)))
          o = u.phi;
      if (!o || R.chance(20))
        o = v.w == mw ? (Value *)cnt : R.pick(inv[v.w]);
      (void)t;
      switch (v.kind)
      {
      case 0: case 1: case 2: next.push_back(B.CreateAdd(x, ci(v.w, R.range(-7, 13)))); break;
      case 3: next.push_back(B.CreateAdd(x, R.pick(inv[v.w]))); break;
      case 4: next.push_back(B.CreateAdd(x, o)); break;
      case 5: next.push_back(B.CreateAdd(x, B.CreateMul(o, ci(v.w, R.range(2, 6))))); break;
      case 6: next.push_back(B.CreateMul(x, ci(v.w, R.range(2, 5)))); break;
      case 7: next.push_back(o); break;
      case 8: next.push_back(B.CreateSub(x, ci(v.w, R.range(1, 9)))); break;
      case 9: next.push_back(B.CreateSub(R.pick(inv[v.w]), x)); break;
      case 10: next.push_back(B.CreateAdd(B.CreateAdd(x, ci(v.w, R.range(1, 5))), o)); break;
      case 11: next.push_back(B.CreateShl(x, ci(v.w, 1))); break;
      case 12: next.push_back(lin(v.w, 2)); break;
      default: next.push_back(x); break;
      }
    }
    Value * idxN = B.CreateAdd(idx, ci(64, 1));
    Value * cntN = down ? B.CreateSub(cnt, ci(mw, step)) : B.CreateAdd(cnt, ci(mw, step));
    Value * useAfter = R.chance(50) && !ivs.empty() ? next[0] : nullptr;
    auto last = B.GetInsertBlock();
    if (doWhile)
    {
      auto c = cmp(cntN, true);
      if (R.chance(20))
        B.CreateCondBr(B.CreateXor(c, B.getTrue()), exit, body);
      else
        B.CreateCondBr(c, body, exit);
    }
    else
      B.CreateBr(head);
    cnt->addIncoming(cntN, last);
    idx->addIncoming(idxN, last);
    for (size_t i = 0; i < ivs.size(); i++)
      ivs[i].phi->addIncoming(next[i], last);
    B.SetInsertPoint(exit);
    if (useAfter && doWhile && !useAfter->getType()->isPointerTy())
      ev(useAfter);
    for (auto & v : ivs)
      if (!v.ptr && R.chance(50))
      {
        if (R.chance(50) && !ivars[v.w].empty())
          B.CreateStore(v.phi, R.pick(ivars[v.w]));
        else
          ev(v.phi);
      }
  }
  // ------------------------------------------------- loads from constant memory
  void constLoad()
  {
    // a constant (or never modified) global with a structured initialiser, read at constant offsets
    std::vector<Type *> elems;
    std::vector<Constant *> vals;
    std::function<Constant *(int)> mk = [&](int d) -> Constant *
    {
      switch (R.below(d > 0 ? 12 : 7))
      {
      case 0: return ConstantInt::get(G.I32, R.next());
      case 1: return ConstantInt::get(G.I64, R.next());
      case 2: return ConstantInt::get(G.I8, R.next());
      case 3: return ConstantInt::get(G.I16, R.next());
      case 4: return ConstantFP::get(G.F64, R.range(-9, 9) * 0.5);
      case 5: return ConstantFP::get(Type::getFloatTy(C), R.range(-9, 9) * 0.25);
      case 6: return ConstantInt::get(G.I32, R.below(3));
      case 7:
      {
        auto e = mk(0);
        int n = R.range(1, 5);
        std::vector<Constant *> v;
        for (int i = 0; i < n; i++)
          v.push_back(e->getType()->isIntegerTy() ? (Constant *)ConstantInt::get(e->getType(), R.next()) : e);
        return ConstantArray::get(ArrayType::get(e->getType(), n), v);
      }
      case 8:
      {
        std::vector<Constant *> v;
        int n = R.range(1, 4);
        for (int i = 0; i < n; i++)
          v.push_back(mk(d - 1));
        return ConstantStruct::getAnon(C, v);
      }
      case 9: return ConstantAggregateZero::get(ArrayType::get(G.I32, R.range(1, 4)));
      case 10:
      {
        auto a = mk(d - 1);
        std::vector<Constant *> v(R.range(1, 3), a);
        return ConstantArray::get(ArrayType::get(a->getType(), v.size()), v);
      }
      default:
        return ConstantDataVector::get(C, std::vector<uint32_t>{ 1, 2, (uint32_t)R.next(), 4 });
      }
    };
    auto init = mk(3);
    auto gv = new GlobalVariable(G.M, init->getType(), R.chance(60), R.chance(80) ? GlobalValue::InternalLinkage : GlobalValue::ExternalLinkage, init, "cg" + std::to_string(G.constG++));
    auto & dl = G.M.getDataLayout();
    // all scalar leaves with their offsets
    struct Leaf { Type * t; uint64_t off; };
    std::vector<Leaf> leaves;
    std::function<void(Type *, uint64_t)> walk = [&](Type * t, uint64_t o)
    {
      if (auto st = dyn_cast<StructType>(t))
        for (unsigned i = 0; i < st->getNumElements(); i++)
          walk(st->getElementType(i), o + dl.getStructLayout(st)->getElementOffset(i));
      else if (auto at = dyn_cast<ArrayType>(t))
        for (unsigned i = 0; i < at->getNumElements(); i++)
          walk(at->getElementType(), o + i * dl.getTypeAllocSize(at->getElementType()));
      else
        leaves.push_back({ t, o });
    };
    walk(init->getType(), 0);
    int n = R.range(1, 4);
    for (int i = 0; i < n; i++)
    {
      auto & l = R.pick(leaves);
      uint64_t size = dl.getTypeStoreSize(l.t);
      Value * p = l.off ? B.CreateInBoundsGEP(G.I8, gv, B.getInt64(l.off)) : (Value *)gv;
      Value * v = nullptr;
      switch (R.below(9))
      {
      case 0: case 1: case 2:
        v = B.CreateAlignedLoad(l.t, p, Align(1));
        break;
      case 3:
        v = B.CreateAlignedLoad(IntegerType::get(C, size * 8), p, Align(1));
        break;
      case 4:
      { // a part of the leaf
        uint64_t o = R.below(size);
        auto q = B.CreateInBoundsGEP(G.I8, gv, B.getInt64(l.off + o));
        v = B.CreateAlignedLoad(G.I8, q, Align(1));
        break;
      }
      case 5:
        v = B.CreateAlignedLoad(size == 8 ? G.F64 : IntegerType::get(C, size * 8), p, Align(1));
        break;
      default:
      { // any integer that covers only bytes of leaves
        static const unsigned ws[] = { 8, 16, 32, 64, 128 };
        unsigned w = ws[R.below(5)];
        uint64_t o = l.off + R.below(size), total = dl.getTypeAllocSize(init->getType());
        std::vector<bool> cov(total);
        for (auto & x : leaves)
          for (uint64_t k = 0; k < dl.getTypeStoreSize(x.t); k++)
            cov[x.off + k] = true;
        bool ok = o + w / 8 <= total;
        for (uint64_t k = o; ok && k < o + w / 8; k++)
          ok = cov[k];
        if (!ok)
          continue;
        v = B.CreateAlignedLoad(IntegerType::get(C, w), B.CreateInBoundsGEP(G.I8, gv, B.getInt64(o)), Align(1));
      }
      }
      if (v->getType()->isVectorTy())
        v = B.CreateExtractElement(v, B.getInt32(R.below(4)));
      if (v->getType()->isFloatTy())
        v = B.CreateFPExt(v, G.F64);
      if (v->getType()->isDoubleTy() && R.chance(50))
        v = B.CreateBitCast(v, G.I64);
      ev(v);
      if (v->getType()->isIntegerTy(64) && R.chance(30))
        B.CreateStore(v, R.pick(ivars[64]));
    }
  }
  void gotoChunk()
  {
    loopDepth += 2;
    depth += 2;
    int n = R.range(3, 8);
    std::vector<BasicBlock *> bs;
    for (int i = 0; i < n; i++)
      bs.push_back(bb("goto"));
    auto exit = bb("goto.exit");
    auto fuel = entryAlloca(G.I32);
    B.CreateStore(B.getInt32(R.range(5, 25)), fuel);
    if (R.chance(50))
      B.CreateBr(bs[0]);
    else
      B.CreateCondBr(bexpr(1), bs[0], R.pick(bs)); // possibly a second entry
    bool guardAll = R.chance(30);
    for (int i = 0; i < n; i++)
    {
      B.SetInsertPoint(bs[i]);
      auto sb = breakBB, sc = contBB;
      breakBB = contBB = nullptr;
      block(R.chance(60) ? 1 : 0);
      if (R.chance(60))
        assignInt();
      if (R.chance(20))
        ev(anyInt(1));
      breakBB = sb;
      contBB = sc;
      std::vector<BasicBlock *> targets;
      int nt = R.chance(75) ? 2 : R.range(1, 4);
      bool back = false;
      for (int k = 0; k < nt; k++)
      {
        int t = R.below(n + 1);
        if (t <= i)
          back = true;
        targets.push_back(t == n ? exit : bs[t]);
      }
      if (i == n - 1)
        targets[R.below(targets.size())] = exit;
      auto dispatch = [&]()
      {
        if (targets.size() == 1)
          B.CreateBr(targets[0]);
        else if (targets.size() == 2)
          B.CreateCondBr(bexpr(1), targets[0], targets[1]);
        else
        {
          auto sw = B.CreateSwitch(B.CreateAnd(iexpr(32, 1), B.getInt32(3)), targets[0]);
          for (size_t k = 1; k < targets.size(); k++)
            sw->addCase(B.getInt32(k), targets[k]);
        }
      };
      if (back || guardAll)
      {
        auto f = B.CreateSub(B.CreateLoad(G.I32, fuel), B.getInt32(1));
        B.CreateStore(f, fuel);
        auto go = bb("goto.go");
        auto out = R.chance(70) ? exit : exit;
        B.CreateCondBr(B.CreateICmpSGT(f, B.getInt32(0)), go, out);
        B.SetInsertPoint(go);
      }
      dispatch();
    }
    loopDepth -= 2;
    depth -= 2;
    B.SetInsertPoint(exit);
  }
  void ret()
  {
    switch (retKind)
    {
    case 0: B.CreateRetVoid(); break;
    case -1: B.CreateRet(fexpr(1)); break;
    case -3: B.CreateRet(bufSptr(1)); break;
    case -7:
    {
      Value * s = PoisonValue::get(G.PairTy);
      s = B.CreateInsertValue(s, iexpr(32, 1), { 0 });
      s = B.CreateInsertValue(s, iexpr(64, 1), { 1 });
      B.CreateRet(s);
      break;
    }
    default: B.CreateRet(iexpr(retKind, 2));
    }
  }
  void earlyExit()
  {
    auto c = bexpr(1);
    auto cont = bb("x.cont");
    if (breakBB && R.chance(70))
    {
      auto t = R.chance(50) ? breakBB : contBB;
      if (R.chance(50))
        B.CreateCondBr(c, t, cont);
      else
      {
        auto d = bb("x.do");
        B.CreateCondBr(c, d, cont);
        B.SetInsertPoint(d);
        assignInt();
        B.CreateBr(t);
      }
    }
    else if (!isMain)
    {
      auto d = bb("x.ret");
      B.CreateCondBr(c, d, cont);
      B.SetInsertPoint(d);
      if (R.chance(8))
      {
        auto call = B.CreateCall(G.extFn("ext_exit", G.V, { G.I32 }), { iexpr(32, 1) });
        call->setDoesNotReturn();
        B.CreateUnreachable();
      }
      else
        ret();
    }
    else
      B.CreateBr(cont);
    B.SetInsertPoint(cont);
  }
  void run(const Sig * sig)
  {
    setup(sig);
    block(1000);
    if (isMain)
    {
      // report everything observable
      for (auto g : G.scalarG)
        ev(B.CreateLoad(g->getValueType(), g));
      for (auto & kv : ivars)
        if (R.chance(80))
          ev(B.CreateLoad(IntegerType::get(C, kv.first), kv.second[0]));
      for (auto v : fvars)
        ev(B.CreateLoad(G.F64, v));
      for (auto g : G.bufG)
        B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { g, B.getInt32(BufSize) });
      for (auto g : G.fbufG)
        B.CreateCall(G.extFn("ext_peekf", G.V, { G.PT, G.I32 }), { g, B.getInt32(8) });
      for (auto b : bufs)
        B.CreateCall(G.extFn("ext_peek", G.V, { G.PT, G.I32 }), { b, B.getInt32(BufSize) });
      for (auto b : recs)
        ev(B.CreateLoad(G.I64, recField(b, 2)));
      for (auto b : vecs)
        ev(B.CreateExtractElement(B.CreateLoad(FixedVectorType::get(G.I32, 4), b), B.getInt32(R.below(4))));
      if (G.P.endless && R.chance(8))
      { // never returns; observable through the external call trace
        auto l = bb("endless");
        auto c = entryAlloca(G.I32);
        B.CreateStore(B.getInt32(0), c);
        B.CreateBr(l);
        B.SetInsertPoint(l);
        auto v = B.CreateLoad(G.I32, c);
        ev(v);
        B.CreateStore(B.CreateAdd(v, B.getInt32(3)), c);
        assignInt();
        B.CreateBr(l);
        return;
      }
    }
    ret();
  }
};
} // namespace

GenProfile makeProfile(Rng & r, const std::string & kind)
{
  GenProfile p;
  p.functions = r.range(1, 5);
  p.stmts = r.range(5, 14);
  p.loopTrip = r.range(2, 9);
  p.floats = r.chance(60);
  p.vectors = r.chance(25);
  p.exotic = r.chance(30);
  p.heap = r.chance(50);
  p.volatiles = r.chance(40);
  p.irreducible = r.chance(60);
  p.recursion = r.chance(60);
  p.indirect = r.chance(60);
  p.aggregates = r.chance(60);
  p.undefs = r.chance(50);
  p.memPatPct = kind == "mem" ? 15 : 3;
  if (kind == "cfg")
  {
    p.irreducible = true;
    p.functions = r.range(0, 2);
    p.stmts = r.range(8, 20);
  }
  else if (kind == "mem")
  {
    p.floats = r.chance(20);
    p.vectors = false;
    p.exotic = false;
    p.heap = p.indirect = p.recursion = true;
    p.functions = r.range(2, 6);
  }
  else if (kind == "loop")
  {
    p.functions = r.range(0, 2);
    p.irreducible = false;
    p.stmts = r.range(8, 16);
    p.ivPct = 70;
  }
  return p;
}

std::unique_ptr<Module> generateModule(LLVMContext & ctx, uint64_t seed, const GenProfile & p)
{
  auto M = std::make_unique<Module>("gen", ctx);
  M->setSourceFileName("gen.c");
  M->setTargetTriple("x86_64-unknown-linux-gnu");
  M->setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  Gen g(ctx, *M, seed, p);
  g.globals();
  g.signatures();
  // bodies: last function first does not matter; declarations exist
  for (size_t i = 0; i < g.fns.size(); i++)
  {
    FnGen fg(g, g.fns[i].f, i, g.fns[i].sig.ret, false);
    fg.run(&g.fns[i].sig);
  }
  auto mf = Function::Create(FunctionType::get(g.I32, {}, false), GlobalValue::ExternalLinkage, "vh_main", *M);
  FnGen fg(g, mf, 0, 32, true);
  fg.run(nullptr);
  return M;
}

std::string moduleToString(const Module & m)
{
  std::string s;
  raw_string_ostream os(s);
  m.print(os, nullptr);
  return os.str();
}
std::unique_ptr<Module> parseModule(const std::string & text, LLVMContext & ctx, std::string & err)
{
  SMDiagnostic d;
  auto m = parseAssemblyString(text, d, ctx);
  if (!m)
  {
    raw_string_ostream os(err);
    d.print("parse", os);
  }
  return m;
}
bool verifies(const Module & m, std::string & err)
{
  raw_string_ostream os(err);
  return !verifyModule(m, &os);
}

std::string preconditionModule(Module & m, Rng & r, bool mini)
{
  static const char * pipes[] = {
    "",
    "function(mem2reg)",
    "function(mem2reg)",
    "function(mem2reg)",
    "function(mem2reg,simplifycfg)",
    "function(sroa,instcombine<no-verify-fixpoint>,simplifycfg)",
    "function(mem2reg,loop-simplify,loop(loop-rotate),instcombine<no-verify-fixpoint>)",
    "function(sroa,instcombine<no-verify-fixpoint>,loop-simplify,loop(loop-rotate,indvars),simplifycfg)",
    "function(sroa,early-cse,jump-threading,gvn,simplifycfg)",
    "default<O1>",
    "default<O2>",
    "function(mem2reg,reassociate,gvn,dse,adce)",
  };
  std::string pipe = mini ? miniPipeline(r) : pipes[r.below(sizeof(pipes) / sizeof(pipes[0]))];
  if (pipe.empty())
    return pipe;
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pipe))
  {
    std::string s;
    raw_string_ostream os(s);
    os << e;
    fprintf(stderr, "pipeline error: %s\n", s.c_str());
    abort();
  }
  MPM.run(m, MAM);
  return pipe;
}

bool inSupportedSubset(Module & m, std::string * why)
{
  auto no = [&](std::string s) { if (why) *why = s; return false; };
  for (auto & g : m.globals())
    if (g.isThreadLocal())
      return no("tls");
  if (!m.aliases().empty() || !m.ifuncs().empty())
    return no("alias");
  for (auto & f : m)
  {
    if (f.isDeclaration() && f.isIntrinsic())
    {
      switch (f.getIntrinsicID())
      {
      case Intrinsic::usub_with_overflow: case Intrinsic::vscale:
      default: break;
      }
    }
    for (auto & i : instructions(f))
    {
      auto ptrVec = [](llvm::Type * t) { return t->isVectorTy() && cast<llvm::VectorType>(t)->getElementType()->isPointerTy(); };
      if (ptrVec(i.getType()))
        return no("vector of pointers");
      for (auto & o : i.operands())
        if (ptrVec(o->getType()))
          return no("vector of pointers");
      if (auto l = dyn_cast<LoadInst>(&i); l && l->isAtomic())
        return no("atomic");
      if (auto s = dyn_cast<StoreInst>(&i); s && s->isAtomic())
        return no("atomic");
      switch (i.getOpcode())
      {
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::Fence:
      case Instruction::IndirectBr: case Instruction::Invoke: case Instruction::CallBr:
      case Instruction::VAArg: case Instruction::LandingPad: case Instruction::Resume:
      case Instruction::AddrSpaceCast:
        return no(std::string("opcode ") + i.getOpcodeName());
      default: break;
      }
      if (auto sw = dyn_cast<SwitchInst>(&i))
        if (sw->getCondition()->getType()->getIntegerBitWidth() > 64)
          return no("wide switch");
      if (auto ms = dyn_cast<MemSetInst>(&i); ms && ms->isVolatile())
        return no("volatile memset");
      if (auto ii = dyn_cast<IntrinsicInst>(&i))
      {
        std::string n = ii->getCalledFunction()->getName().str();
        static const std::set<Intrinsic::ID> ok = {
          Intrinsic::abs, Intrinsic::bswap, Intrinsic::ceil, Intrinsic::copysign, Intrinsic::ctlz,
          Intrinsic::cttz, Intrinsic::ctpop, Intrinsic::expect, Intrinsic::fabs, Intrinsic::floor,
          Intrinsic::fmuladd, Intrinsic::fshl, Intrinsic::is_constant, Intrinsic::is_fpclass,
          Intrinsic::memcpy, Intrinsic::memmove, Intrinsic::memset, Intrinsic::ptrmask, Intrinsic::rint,
          Intrinsic::round, Intrinsic::trunc, Intrinsic::sadd_with_overflow, Intrinsic::uadd_with_overflow,
          Intrinsic::ssub_with_overflow, Intrinsic::smul_with_overflow, Intrinsic::umul_with_overflow,
          Intrinsic::smax, Intrinsic::smin, Intrinsic::umax, Intrinsic::umin,
          Intrinsic::lifetime_start, Intrinsic::lifetime_end, Intrinsic::assume, Intrinsic::prefetch,
          // plain calls
          Intrinsic::usub_sat, Intrinsic::uadd_sat, Intrinsic::ssub_sat, Intrinsic::sadd_sat,
          Intrinsic::usub_with_overflow, Intrinsic::fshr, Intrinsic::bitreverse, Intrinsic::sqrt, Intrinsic::vector_reduce_add,
          Intrinsic::vector_reduce_xor, Intrinsic::vector_reduce_or, Intrinsic::vector_reduce_and,
          Intrinsic::maxnum, Intrinsic::minnum, Intrinsic::vastart, Intrinsic::vaend, Intrinsic::vacopy,
          Intrinsic::trap, Intrinsic::stacksave, Intrinsic::stackrestore
        };
        if (!ok.count(ii->getIntrinsicID()))
          return no("intrinsic " + n);
      }
      if (auto cb = dyn_cast<CallBase>(&i))
      {
        if (cb->isInlineAsm())
          return no("inline asm");
        if (cb->hasOperandBundles())
        {
          if (auto ii = dyn_cast<IntrinsicInst>(cb); !(ii && ii->getIntrinsicID() == Intrinsic::assume))
            return no("operand bundle");
        }
      }
    }
  }
  return true;
}
}
