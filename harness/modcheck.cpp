// Compares the interface of an output module with that of the input module: symbols, types, linkage, attributes,
// initial contents; and, without optimizations, the memory accesses, allocations and calls of every function.
#include "diff.hpp"
#include "modcheck.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <set>
using namespace llvm;
namespace vh
{
static std::string str(Type * t)
{
  std::string s;
  raw_string_ostream os(s);
  t->print(os);
  return os.str();
}
// structurally prints a type with the names of structs resolved
static std::string shape(Type * t)
{
  if (auto st = dyn_cast<StructType>(t))
  {
    std::string s = st->isPacked() ? "<{" : "{";
    for (auto e : st->elements())
      s += shape(e) + ",";
    return s + "}";
  }
  if (auto at = dyn_cast<ArrayType>(t))
    return "[" + std::to_string(at->getNumElements()) + "x" + shape(at->getElementType()) + "]";
  if (auto vt = dyn_cast<FixedVectorType>(t))
    return "<" + std::to_string(vt->getNumElements()) + "x" + shape(vt->getElementType()) + ">";
  if (auto ft = dyn_cast<FunctionType>(t))
  {
    std::string s = shape(ft->getReturnType()) + "(";
    for (auto p : ft->params())
      s += shape(p) + ",";
    return s + (ft->isVarArg() ? "...)" : ")");
  }
  return str(t);
}
// initial memory of a global: bytes, undefined bytes and relocations
struct Image
{
  struct B { int v = -1; std::string rel; }; // -1 undefined
  std::vector<B> b;
  bool exact = true;
};
static void fill(const Constant * c, const DataLayout & dl, Image & im, uint64_t off)
{
  auto size = dl.getTypeStoreSize(c->getType()).getFixedValue();
  if (isa<UndefValue>(c))
    return;
  if (c->isNullValue() && !c->getType()->isStructTy())
  {
    for (uint64_t i = 0; i < dl.getTypeAllocSize(c->getType()).getFixedValue() && off + i < im.b.size(); i++)
      im.b.at(off + i).v = 0;
    return;
  }
  if (auto ci = dyn_cast<ConstantInt>(c))
  {
    auto v = ci->getValue().zext(std::max<unsigned>(size * 8, ci->getBitWidth()));
    for (uint64_t i = 0; i < size; i++)
      im.b.at(off + i).v = v.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (auto cf = dyn_cast<ConstantFP>(c))
  {
    auto v = cf->getValueAPF().bitcastToAPInt();
    v = v.zext(std::max<unsigned>(size * 8, v.getBitWidth()));
    for (uint64_t i = 0; i < size; i++)
      im.b.at(off + i).v = v.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (auto st = dyn_cast<StructType>(c->getType()))
  {
    auto sl = dl.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      if (auto e = c->getAggregateElement(i))
        fill(e, dl, im, off + sl->getElementOffset(i).getFixedValue());
      else
        im.exact = false;
    return;
  }
  if (auto at = dyn_cast<ArrayType>(c->getType()))
  {
    auto es = dl.getTypeAllocSize(at->getElementType()).getFixedValue();
    for (unsigned i = 0; i < at->getNumElements(); i++)
      if (auto e = c->getAggregateElement(i))
        fill(e, dl, im, off + i * es);
      else
        im.exact = false;
    return;
  }
  if (auto vt = dyn_cast<FixedVectorType>(c->getType()))
  {
    auto bits = dl.getTypeSizeInBits(vt->getElementType()).getFixedValue();
    if (bits % 8)
    { // packed bit by bit
      APInt all(std::max<uint64_t>(size * 8, bits * vt->getNumElements()), 0);
      for (unsigned i = 0; i < vt->getNumElements(); i++)
        if (auto e = dyn_cast_or_null<ConstantInt>(c->getAggregateElement(i)))
          all.insertBits(e->getValue(), i * bits);
        else
          im.exact = false;
      for (uint64_t i = 0; i < size; i++)
        im.b.at(off + i).v = all.extractBitsAsZExtValue(8, i * 8);
      return;
    }
    auto es = bits / 8;
    for (unsigned i = 0; i < vt->getNumElements(); i++)
      if (auto e = c->getAggregateElement(i))
        fill(e, dl, im, off + i * es);
      else
        im.exact = false;
    return;
  }
  if (c->getType()->isPointerTy())
  {
    APInt o(64, 0);
    auto base = c->stripAndAccumulateConstantOffsets(dl, o, true);
    if (auto gv = dyn_cast<GlobalValue>(base))
    {
      for (uint64_t i = 0; i < size; i++)
      {
        im.b.at(off + i).v = -2;
        im.b.at(off + i).rel = gv->getName().str() + "+" + std::to_string(o.getSExtValue()) + "#" + std::to_string(i);
      }
      return;
    }
  }
  im.exact = false;
}
static std::string compareInit(const GlobalVariable & a, const GlobalVariable & b)
{
  auto & dl = a.getParent()->getDataLayout();
  Image x, y;
  auto n = dl.getTypeAllocSize(a.getValueType()).getFixedValue();
  if (n != b.getParent()->getDataLayout().getTypeAllocSize(b.getValueType()).getFixedValue())
    return "size";
  x.b.resize(n);
  y.b.resize(n);
  fill(a.getInitializer(), dl, x, 0);
  fill(b.getInitializer(), b.getParent()->getDataLayout(), y, 0);
  if (!x.exact || !y.exact)
    return "";
  for (uint64_t i = 0; i < n; i++)
    if (x.b[i].v != -1 && (x.b[i].v != y.b[i].v || x.b[i].rel != y.b[i].rel))
      return "initial content at byte " + std::to_string(i) + " (" + std::to_string(x.b[i].v) + " " + x.b[i].rel + " became " + std::to_string(y.b[i].v) + " " + y.b[i].rel + ")";
  return "";
}
static std::string attrs(const AttributeSet & s, bool drop = false)
{
  std::set<std::string> v;
  for (auto & a : s)
  {
    if (a.isTypeAttribute())
      v.insert(a.getNameFromAttrKind(a.getKindAsEnum()).str() + "(" + (a.getValueAsType() ? shape(a.getValueAsType()) : "") + ")");
    else
      v.insert(a.getAsString());
  }
  std::string r;
  for (auto & a : v)
    r += a + " ";
  return r;
}
static std::string callSig(const CallBase & c)
{
  std::string s = "call ";
  if (auto f = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts()))
    s += f->getName().str();
  else
    s += "<indirect>";
  s += " " + shape(c.getFunctionType()) + " cc" + std::to_string(c.getCallingConv());
  auto a = c.getAttributes();
  s += " fn:" + attrs(a.getFnAttrs()) + " ret:" + attrs(a.getRetAttrs());
  for (unsigned i = 0; i < c.arg_size(); i++)
    s += " p" + std::to_string(i) + ":" + attrs(a.getParamAttrs(i));
  return s;
}
// what a function does to memory and whom it calls
static std::map<std::string, int> effects(Function & f)
{
  std::map<std::string, int> m;
  for (auto & i : instructions(f))
  {
    if (auto l = dyn_cast<LoadInst>(&i))
    {
      if (l->isVolatile() || !l->use_empty())
        m["load " + shape(l->getType()) + " align " + std::to_string(l->getAlign().value()) + (l->isVolatile() ? " volatile" : "")]++;
    }
    else if (auto s = dyn_cast<StoreInst>(&i))
      m["store " + shape(s->getValueOperand()->getType()) + " align " + std::to_string(s->getAlign().value()) + (s->isVolatile() ? " volatile" : "")]++;
    else if (auto a = dyn_cast<AllocaInst>(&i))
      m["alloca " + shape(a->getAllocatedType()) + " align " + std::to_string(a->getAlign().value())]++;
    else if (auto c = dyn_cast<CallBase>(&i))
    {
      if (auto mi = dyn_cast<MemIntrinsic>(c))
        m[std::string("memory intrinsic ") + mi->getCalledFunction()->getName().str() + (mi->isVolatile() ? " volatile" : "")]++;
      else if (!isa<IntrinsicInst>(c))
      {
        auto f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (f && (f->getName() == "malloc" || f->getName() == "free"))
          m["call " + f->getName().str()]++;
        else
          m[callSig(*c)]++;
      }
    }
  }
  return m;
}
std::string checkModule(const std::string & inText, const std::string & outText, bool optimized, std::map<std::string, uint64_t> & stats)
{
  LLVMContext c1, c2;
  std::string err;
  auto a = parseModule(inText, c1, err);
  auto b = parseModule(outText, c2, err);
  if (!a || !b)
    return "cannot parse a module";
  if (a->getDataLayoutStr() != b->getDataLayoutStr())
    return "the data layout changed: " + a->getDataLayoutStr() + " / " + b->getDataLayoutStr();
  if (a->getTargetTriple() != b->getTargetTriple())
    return "the target triple changed";
  if (a->getSourceFileName() != b->getSourceFileName())
    return "the source file name changed: " + a->getSourceFileName() + " / " + b->getSourceFileName();
  auto & dl = a->getDataLayout();
  for (auto & g : a->globals())
  {
    auto o = b->getNamedGlobal(g.getName());
    auto where = "global " + g.getName().str() + ": ";
    bool required = !g.isDeclaration() && !g.isDiscardableIfUnused();
    if (!o)
    {
      if (required)
        return where + "the definition disappeared";
      continue;
    }
    stats["globals"]++;
    if (o->isDeclaration() != g.isDeclaration())
      return where + "changed between declaration and definition";
    if (shape(o->getValueType()) != shape(g.getValueType()))
      return where + "type " + shape(g.getValueType()) + " became " + shape(o->getValueType());
    if (o->getLinkage() != g.getLinkage())
      return where + "the linkage changed";
    if (o->isConstant() != g.isConstant())
      return where + "the constant flag changed";
    if (!g.isDeclaration() && o->getSection() != g.getSection())
      return where + "the section changed";
    // without an explicit alignment, all users may rely on the ABI alignment of the type
    auto req = g.getPointerAlignment(dl);
    auto got = o->getPointerAlignment(b->getDataLayout());
    if (got < req)
      return where + "the alignment decreased from " + std::to_string(req.value()) + " to " + std::to_string(got.value());
    if (!g.isDeclaration())
      if (auto e = compareInit(g, *o); !e.empty())
        return where + e;
  }
  for (auto & f : *a)
  {
    if (f.isIntrinsic())
      continue;
    auto o = b->getFunction(f.getName());
    auto where = "function " + f.getName().str() + ": ";
    bool required = !f.isDeclaration() && !f.isDiscardableIfUnused();
    if (!o)
    {
      if (required)
        return where + "the definition disappeared";
      continue;
    }
    stats["functions"]++;
    if (f.getName() == "malloc" || f.getName() == "free")
      continue;
    if (o->isDeclaration() != f.isDeclaration())
      return where + "changed between declaration and definition";
    if (shape(o->getFunctionType()) != shape(f.getFunctionType()))
      return where + "type " + shape(f.getFunctionType()) + " became " + shape(o->getFunctionType());
    if (o->getLinkage() != f.getLinkage())
      return where + "the linkage changed";
    if (o->getCallingConv() != f.getCallingConv())
      return where + "the calling convention changed";
    if (auto x = f.isDeclaration() ? std::string() : attrs(f.getAttributes().getFnAttrs()), y = f.isDeclaration() ? std::string() : attrs(o->getAttributes().getFnAttrs()); x != y)
      return where + "the attributes changed from " + x + " to " + y;
    if (!f.isDeclaration())
      for (unsigned i = 0; i < f.arg_size(); i++)
        if (auto x = attrs(f.getAttributes().getParamAttrs(i)), y = attrs(o->getAttributes().getParamAttrs(i)); x != y)
          return where + "the attributes of parameter " + std::to_string(i) + " changed from " + x + " to " + y;
  }
  // nothing new
  for (auto & g : b->globals())
    if (!a->getNamedGlobal(g.getName()) && !g.hasLocalLinkage())
      return "the output has a new global " + g.getName().str();
  for (auto & f : *b)
    if (!f.isIntrinsic() && !a->getFunction(f.getName()) && !f.hasLocalLinkage())
      return "the output has a new function " + f.getName().str();
  if (!optimized)
  {
    for (auto & f : *a)
    {
      if (f.isDeclaration())
        continue;
      auto o = b->getFunction(f.getName());
      if (!o || o->isDeclaration())
        return "function " + f.getName().str() + ": the definition disappeared without optimization";
      EliminateUnreachableBlocks(f);
      auto x = effects(f), y = effects(*o);
      for (auto & kv : x)
      {
        stats["effects"] += kv.second;
        // computations nobody needs are not part of the graph
        bool droppable = kv.first.find("volatile") == std::string::npos && (kv.first.rfind("load", 0) == 0 || kv.first.rfind("alloca", 0) == 0);
        if (droppable ? y[kv.first] > kv.second : y[kv.first] != kv.second)
          return "function " + f.getName().str() + ": had " + std::to_string(kv.second) + " of '" + kv.first + "', has " + std::to_string(y[kv.first]);
      }
      for (auto & kv : y)
        if (!x.count(kv.first))
          return "function " + f.getName().str() + ": had " + std::to_string(x[kv.first]) + " of '" + kv.first + "', has " + std::to_string(kv.second);
    }
    for (auto & g : a->globals())
      if (!g.isDeclaration() && !b->getNamedGlobal(g.getName()))
        return "global " + g.getName().str() + ": the definition disappeared without optimization";
  }
  return "";
}
}
#include "common.hpp"
namespace vh
{
// random symbol properties: attributes, calling conventions, sections, alignments, linkage; the result is not executed
std::string decorate(const std::string & text, uint64_t seed)
{
  Rng r(seed);
  LLVMContext c;
  std::string err;
  auto m = parseModule(text, c, err);
  if (!m)
    return text;
  using A = Attribute;
  std::vector<A::AttrKind> fn = { A::Cold, A::Hot, A::MinSize, A::NoInline, A::NoReturn, A::NoUnwind, A::OptimizeForSize, A::WillReturn,
    A::NoRecurse, A::NoFree, A::NoSync, A::MustProgress, A::NoCallback, A::InlineHint, A::NoRedZone, A::StackProtect, A::StackProtectStrong,
    A::StackProtectReq, A::SafeStack, A::NoImplicitFloat, A::NoBuiltin, A::Convergent, A::NoMerge, A::NoProfile, A::ShadowCallStack,
    A::StrictFP, A::NullPointerIsValid, A::SanitizeAddress, A::SanitizeThread, A::SanitizeMemory, A::NonLazyBind, A::ReturnsTwice, A::NoDuplicate };
  std::vector<A::AttrKind> ip = { A::NoUndef, A::ZExt, A::SExt, A::InReg, A::Returned };
  std::vector<A::AttrKind> pp = { A::NoUndef, A::NonNull, A::NoAlias, A::NoCapture, A::ReadOnly, A::ReadNone, A::WriteOnly, A::NoFree, A::Returned };
  std::vector<CallingConv::ID> ccs = { CallingConv::Fast, CallingConv::Cold, CallingConv::C, CallingConv::Tail };
  auto params = [&](unsigned i, Type * t) -> AttrBuilder
  {
    AttrBuilder b(c);
    if (!r.chance(45))
      return b;
    if (t->isIntegerTy())
    {
      auto k = r.pick(ip);
      if (k != A::Returned)
        b.addAttribute(k);
    }
    else if (t->isPointerTy())
    {
      switch (r.below(6))
      {
      case 0: b.addAlignmentAttr(Align(1ull << r.below(6))); break;
      case 1: b.addDereferenceableAttr(1 + r.below(64)); break;
      case 2: b.addDereferenceableOrNullAttr(1 + r.below(64)); break;
      case 3: if (i == 0 && r.chance(50)) b.addStructRetAttr(ArrayType::get(Type::getInt32Ty(c), 1 + r.below(4))); else b.addByValAttr(ArrayType::get(Type::getInt16Ty(c), 1 + r.below(4))); break;
      default: { auto k = r.pick(pp); if (k != A::Returned) b.addAttribute(k); }
      }
    }
    else
      b.addAttribute(A::NoUndef);
    return b;
  };
  auto fnAttrs = [&](bool call) -> AttrBuilder
  {
    AttrBuilder b(c);
    int n = r.below(4);
    for (int i = 0; i < n; i++)
      b.addAttribute(r.pick(fn));
    if (r.chance(20)) b.addAttribute("key" + std::to_string(r.below(3)), r.chance(50) ? "value" : "");
    if (r.chance(10)) b.addMemoryAttr(MemoryEffects::argMemOnly());
    if (r.chance(10)) b.addMemoryAttr(MemoryEffects::readOnly());
    if (r.chance(10) && !call) b.addUWTableAttr(UWTableKind::Async);
    if (r.chance(10)) b.addAllocSizeAttr(0, std::nullopt);
    return b;
  };
  for (auto & f : *m)
  {
    if (f.isIntrinsic() || f.getName() == "malloc" || f.getName() == "free" || f.getName() == "main" || f.getName() == "vh_main")
      continue;
    auto keep = moduleToString(*m);
    if (r.chance(50))
    {
      f.addFnAttrs(fnAttrs(false));
      for (unsigned i = 0; i < f.arg_size(); i++)
        f.addParamAttrs(i, params(i, f.getArg(i)->getType()));
      if (r.chance(30) && !f.isVarArg())
      {
        auto cc = r.pick(ccs);
        f.setCallingConv(cc);
        for (auto u : f.users())
          if (auto cb = dyn_cast<CallBase>(u); cb && cb->getCalledOperand() == &f)
            cb->setCallingConv(cc);
      }
    }
    if (!verifies(*m, err))
    {
      m = parseModule(keep, c, err); // an invalid combination: start over from what was valid
      return moduleToString(*m);
    }
  }
  for (auto & g : m->globals())
  {
    if (!g.isDeclaration() && r.chance(25) && !g.hasCommonLinkage())
      g.setSection(r.chance(50) ? ".data.x" : "other");
    if (r.chance(40))
      g.setAlignment(r.chance(20) ? MaybeAlign() : MaybeAlign(1ull << r.below(7)));
    if (!g.isDeclaration() && r.chance(15) && g.hasExternalLinkage())
      g.setLinkage(r.chance(50) ? GlobalValue::WeakAnyLinkage : r.chance(50) ? GlobalValue::WeakODRLinkage : GlobalValue::LinkOnceODRLinkage);
  }
  if (r.chance(30))
    m->setSourceFileName("dir/src" + std::to_string(r.below(9)) + ".c");
  auto good = moduleToString(*m);
  for (auto & f : *m)
    for (auto & i : instructions(f))
      if (auto cb = dyn_cast<CallBase>(&i); cb && !isa<IntrinsicInst>(cb) && r.chance(40))
      {
        auto al = cb->getAttributes().addFnAttributes(c, fnAttrs(true));
        for (unsigned k = 0; k < cb->arg_size(); k++)
          al = al.addParamAttributes(c, k, params(k, cb->getArgOperand(k)->getType()));
        if (cb->getType()->isIntegerTy() && r.chance(30))
          al = al.addRetAttribute(c, A::NoUndef);
        auto before = cb->getAttributes();
        cb->setAttributes(al);
        if (!verifies(*m, err))
          cb->setAttributes(before);
      }
  if (!verifies(*m, err))
    return good;
  return moduleToString(*m);
}
}
