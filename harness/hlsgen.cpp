// Generates small functions of the kind the high-level synthesis flow accepts.
#include "hlsgen.hpp"
#include <algorithm>
#include <sstream>
namespace vh
{
namespace
{
struct Gen
{
  Rng & r;
  HlsProgram p;
  std::ostringstream body, entry, helpers;
  int tmp = 0, lab = 0, cnt = 0, helper = 0;
  int budget;
  struct Var { std::string name; int bits; };
  std::vector<Var> vars;
  std::vector<std::string> breaks;
  std::string retLabel = "ret";
  bool allowReturn = false;

  explicit Gen(Rng & r) : r(r) { budget = r.range(3, 14); }

  std::string t() { return "%t" + std::to_string(tmp++); }
  std::string label() { return "L" + std::to_string(lab++); }
  std::string ty(int b) { return "i" + std::to_string(b); }
  void ins(const std::string & s) { body << "  " << s << "\n"; }
  int bits()
  {
    static const int w[] = { 8, 16, 32, 32, 32, 64, 64 };
    return w[r.below(7)];
  }
  std::string cst(int b)
  {
    switch (r.below(4))
    {
    case 0: return std::to_string(r.range(0, 3));
    case 1: return std::to_string(r.range(-4, 20));
    case 2: return std::to_string((int64_t)(r.next() >> (64 - b)) << (64 - b) >> (64 - b));
    default: return std::to_string(r.range(0, 100));
    }
  }
  std::string conv(const std::string & v, int from, int to)
  {
    if (from == to)
      return v;
    auto x = t();
    if (from > to)
      ins(x + " = trunc " + ty(from) + " " + v + " to " + ty(to));
    else
      ins(x + " = " + (from > 1 && r.chance(50) ? "sext " : "zext ") + ty(from) + " " + v + " to " + ty(to));
    return x;
  }
  std::string var(int b)
  {
    auto & v = r.pick(vars);
    auto x = t();
    ins(x + " = load " + ty(v.bits) + ", ptr " + v.name);
    return conv(x, v.bits, b);
  }
  // pointer to a random element
  std::string element(const HlsArray & a, int depth)
  {
    std::string idx;
    if (r.chance(25))
      idx = std::to_string(a.name.rfind("%l", 0) == 0 ? r.range(1, a.n - 1) : r.below(a.n));
    else
    {
      idx = t();
      auto e = expr(64, depth - 1);
      ins(idx + " = and i64 " + e + ", " + std::to_string(a.n - 1));
      if (a.name.rfind("%l", 0) == 0)
      {
        auto y = t();
        ins(y + " = xor i64 " + idx + ", %lz");
        idx = y;
      }
    }
    auto x = t();
    std::string et = a.pointers ? "ptr" : ty(a.bits);
    if (a.name[0] == '@' || a.name.rfind("%l", 0) == 0)
      ins(x + " = getelementptr [" + std::to_string(a.n) + " x " + et + "], ptr " + a.name + ", i64 0, i64 " + idx);
    else if (r.chance(20) && !a.pointers)
    {
      // the same address in bytes
      auto y = t();
      ins(y + " = mul i64 " + idx + ", " + std::to_string(a.bits / 8));
      ins(x + " = getelementptr i8, ptr " + a.name + ", i64 " + y);
    }
    else
      ins(x + " = getelementptr " + et + ", ptr " + a.name + ", i64 " + idx);
    return x;
  }
  std::string throughPointer(const HlsArray & a, int depth)
  {
    auto e = element(a, depth);
    auto q = t();
    ins(q + " = load ptr, ptr " + e);
    auto & tg = p.arrays[a.target];
    auto idx = t();
    auto v = expr(64, depth - 1);
    ins(idx + " = and i64 " + v + ", 1");
    auto x = t();
    ins(x + " = getelementptr " + ty(tg.bits) + ", ptr " + q + ", i64 " + idx);
    return x;
  }
  std::string load(int b, int depth)
  {
    auto & a = r.pick(p.arrays);
    auto x = t();
    if (a.pointers)
    {
      auto e = throughPointer(a, depth);
      auto w = p.arrays[a.target].bits;
      ins(x + " = load " + ty(w) + ", ptr " + e);
      return conv(x, w, b);
    }
    for (auto & o : p.arrays)
      if (o.pointers && &p.arrays[o.target] == &a)
      {
        // only reached through pointers
        auto e = throughPointer(o, depth);
        ins(x + " = load " + ty(a.bits) + ", ptr " + e);
        return conv(x, a.bits, b);
      }
    auto e = element(a, depth);
    ins(x + " = load " + ty(a.bits) + ", ptr " + e);
    return conv(x, a.bits, b);
  }
  std::string cond(int depth)
  {
    static const char * p[] = { "eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge" };
    int b = bits();
    auto l = expr(b, depth - 1), rr = r.chance(50) ? cst(b) : expr(b, depth - 1);
    auto x = t();
    ins(x + " = icmp " + std::string(p[r.below(10)]) + " " + ty(b) + " " + l + ", " + rr);
    return x;
  }
  std::string expr(int b, int depth)
  {
    if (depth <= 0)
      return r.chance(75) ? var(b) : cst(b);
    auto k = r.below(100);
    if (k < 12)
      return var(b);
    if (k < 34 && !p.arrays.empty())
      return load(b, depth);
    if (k < 40)
    {
      int o = bits();
      return conv(expr(o, depth - 1), o, b);
    }
    if (k < 45)
      return conv(cond(depth), 1, b);
    if (k < 50)
    {
      auto c = cond(depth - 1), l = expr(b, depth - 1), q = expr(b, depth - 1);
      auto x = t();
      ins(x + " = select i1 " + c + ", " + ty(b) + " " + l + ", " + ty(b) + " " + q);
      return x;
    }
    if (k < 54 && helper > 0)
    {
      auto h = r.below(helper);
      auto l = expr(32, depth - 1);
      auto x = t();
      ins(x + " = call i32 @h" + std::to_string(h) + "(i32 " + l + ")");
      return conv(x, 32, b);
    }
    static const char * o[] = { "add", "sub", "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "srem" };
    std::string op = o[r.below(13)];
    auto l = expr(b, depth - 1);
    auto q = expr(b, depth - 1);
    auto x = t();
    if (op == "shl" || op == "lshr" || op == "ashr")
    {
      auto m = t();
      ins(m + " = and " + ty(b) + " " + q + ", " + std::to_string(b - 1));
      q = m;
    }
    if (op == "sdiv" || op == "srem")
    {
      auto m = t(), n = t();
      ins(m + " = and " + ty(b) + " " + q + ", 7");
      ins(n + " = add " + ty(b) + " " + m + ", 1");
      q = n;
    }
    ins(x + " = " + op + " " + ty(b) + " " + l + ", " + q);
    return x;
  }
  void assign()
  {
    auto v = r.pick(vars);
    auto e = expr(v.bits, r.range(1, 3));
    ins("store " + ty(v.bits) + " " + e + ", ptr " + v.name);
  }
  void store()
  {
    auto a = r.pick(p.arrays);
    for (auto & o : p.arrays)
      if (o.pointers && p.arrays[o.target].name == a.name)
        a = o;
    int b = a.pointers ? p.arrays[a.target].bits : a.bits;
    auto e = expr(b, r.range(1, 3));
    auto ptr = a.pointers ? throughPointer(a, 2) : element(a, 2);
    ins("store " + ty(b) + " " + e + ", ptr " + ptr);
  }
  void jump(const std::string & l) { ins("br label %" + l); }
  void here(const std::string & l) { body << l << ":\n"; }
  void branch(const std::string & c, const std::string & a, const std::string & b) { ins("br i1 " + c + ", label %" + a + ", label %" + b); }
  void iff(int depth)
  {
    auto c = cond(2);
    auto a = label(), e = label(), j = label();
    bool els = r.chance(55);
    branch(c, a, els ? e : j);
    here(a);
    block(depth - 1, r.range(1, 3));
    jump(j);
    if (els)
    {
      here(e);
      block(depth - 1, r.range(1, 3));
      jump(j);
    }
    here(j);
  }
  void switchh(int depth)
  {
    int b = bits(), n = r.range(2, 4);
    auto e = expr(b, 2);
    auto m = t();
    ins(m + " = and " + ty(b) + " " + e + ", 7");
    auto j = label(), d = label();
    std::vector<std::string> ls;
    std::string s = "switch " + ty(b) + " " + m + ", label %" + d + " [";
    int val = r.below(3);
    for (int i = 0; i < n; i++)
    {
      ls.push_back(label());
      s += " " + ty(b) + " " + std::to_string(val) + ", label %" + ls.back();
      val += r.range(1, 2);
      if (val > 7)
      {
        n = i + 1;
        break;
      }
    }
    ins(s + " ]");
    for (auto & l : ls)
    {
      here(l);
      block(depth - 1, r.range(1, 2));
      jump(r.chance(15) && &l != &ls.back() ? (&l)[1] : j);
    }
    here(d);
    if (r.chance(60))
      block(depth - 1, 1);
    jump(j);
    here(j);
  }
  void loop(int depth)
  {
    int b = r.chance(50) ? 64 : r.chance(60) ? 32 : 8;
    std::string c = "%c" + std::to_string(cnt++);
    entry << "  " << c << " = alloca " << ty(b) << "\n";
    bool down = r.chance(25);
    std::string lim;
    if (r.chance(60))
      lim = std::to_string(r.range(1, 6));
    else
    {
      auto e = expr(b, 1);
      lim = t();
      ins(lim + " = and " + ty(b) + " " + e + ", " + (r.chance(50) ? "7" : "3"));
    }
    ins("store " + ty(b) + " " + (down ? lim : "0") + ", ptr " + c);
    auto h = label(), bd = label(), x = label();
    auto test = [&](const std::string & yes, const std::string & no)
    {
      auto v = t(), q = t();
      ins(v + " = load " + ty(b) + ", ptr " + c);
      if (down)
        ins(q + " = icmp ne " + ty(b) + " " + v + ", 0");
      else
        ins(q + " = icmp " + std::string(r.chance(50) ? "slt" : "ult") + " " + ty(b) + " " + v + ", " + lim);
      branch(q, yes, no);
    };
    auto step = [&]
    {
      auto v = t(), q = t();
      ins(v + " = load " + ty(b) + ", ptr " + c);
      ins(q + " = add " + ty(b) + " " + v + ", " + (down ? "-1" : "1"));
      ins("store " + ty(b) + " " + q + ", ptr " + c);
    };
    bool bottom = !down && r.chance(35); // do while
    jump(bottom ? bd : h);
    vars.push_back({ c, b }); // the body may read it; writes would change the trip count
    auto saved = vars;
    breaks.push_back(x);
    if (!bottom)
    {
      here(h);
      test(bd, x);
    }
    here(bd);
    loopVar.push_back(c);
    block(depth - 1, r.range(1, 4));
    loopVar.pop_back();
    step();
    if (bottom)
      test(bd, x);
    else
      jump(h);
    here(x);
    breaks.pop_back();
    for (size_t i = 0; i < vars.size(); i++)
      if (vars[i].name == c)
        vars.erase(vars.begin() + i--);
  }
  std::vector<std::string> loopVar;
  void leave()
  {
    auto c = cond(2);
    auto a = label(), b = label();
    branch(c, a, b);
    here(a);
    if (r.chance(50))
      store1();
    jump(allowReturn && r.chance(30) ? retLabel : breaks.back());
    here(b);
  }
  void store1()
  {
    if (p.arrays.empty())
      assignSafe();
    else
      store();
  }
  void assignSafe()
  {
    for (int i = 0; i < 20; i++)
    {
      auto v = r.pick(vars);
      if (v.name.rfind("%c", 0) == 0)
        continue;
      auto e = expr(v.bits, r.range(1, 3));
      ins("store " + ty(v.bits) + " " + e + ", ptr " + v.name);
      return;
    }
  }
  void block(int depth, int n)
  {
    for (int i = 0; i < n && budget > 0; i++)
    {
      budget--;
      auto k = r.below(100);
      if (k < 34)
        assignSafe();
      else if (k < 58)
        store1();
      else if (k < 72 && depth > 0)
        iff(depth);
      else if (k < 78 && depth > 0)
        switchh(depth);
      else if (k < 94 && depth > 0 && loopVar.size() < 3)
        loop(depth);
      else if (!breaks.empty())
        leave();
      else
        assignSafe();
    }
  }
  void makeHelper()
  {
    auto n = std::to_string(helper);
    helpers << "define internal i32 @h" << n << "(i32 %x) {\n";
    switch (r.below(3))
    {
    case 0:
      helpers << "  %a = mul i32 %x, " << r.range(2, 9) << "\n  %b = add i32 %a, " << r.range(-5, 5) << "\n  ret i32 %b\n}\n";
      break;
    case 1:
      helpers << "  %c = icmp slt i32 %x, " << r.range(-5, 50) << "\n  br i1 %c, label %t, label %e\nt:\n  %a = add i32 %x, 7\n  br label %j\n"
              << "e:\n  %b = xor i32 %x, 85\n  br label %j\nj:\n  %p = phi i32 [ %a, %t ], [ %b, %e ]\n  ret i32 %p\n}\n";
      break;
    default:
      helpers << "  %m = and i32 %x, 7\n  br label %l\nl:\n  %i = phi i32 [ 0, %0 ], [ %j, %l ]\n  %s = phi i32 [ %x, %0 ], [ %q, %l ]\n"
              << "  %q = add i32 %s, %i\n  %j = add i32 %i, 1\n  %c = icmp slt i32 %i, %m\n  br i1 %c, label %l, label %e\ne:\n  ret i32 %q\n}\n";
    }
    helper++;
  }
  HlsProgram run()
  {
    // memory
    int na = r.below(10) < 1 ? 0 : r.range(1, 4);
    size_t scalars = r.range(0, 3);
    struct A { bool ptr; int idx; };
    std::vector<std::pair<int, int>> args; // (array or -1, bits)
    int g = 0, l = 0, k = 0;
    std::ostringstream globals, init;
    for (int i = 0; i < na; i++)
    {
      HlsArray a;
      a.bits = bits();
      a.n = size_t(1) << r.range(1, 4);
      auto kind = r.below(100);
      if (kind < 65)
      {
        a.name = "%a" + std::to_string(k);
        a.arg = k++;
      }
      else if (kind < 88)
      {
        a.name = "@g" + std::string(r.chance(30) ? "." : "") + std::to_string(g++);
        globals << a.name << " = " << (r.chance(50) ? "internal " : "") << "global [" << a.n << " x " << ty(a.bits) << "] [";
        for (size_t j = 0; j < a.n; j++)
          globals << (j ? ", " : "") << ty(a.bits) << " " << cst(a.bits);
        globals << "], align 16\n";
      }
      else
      {
        a.name = "%l" + std::to_string(l++);
        if (a.n > 4)
          a.n = 4;
        entry << "  " << a.name << " = alloca [" << a.n << " x " << ty(a.bits) << "], align 8\n";
        for (size_t j = 0; j < a.n; j++)
        {
          auto x = "%li" + std::to_string(l) + "_" + std::to_string(j), at = std::to_string(j);
          if (!j)
          {
            // a zero that is not seen as one: the address of element 0 must stay an address computation
            at = x + "z";
            init << "  " << at << " = xor i64 0, %lz\n";
          }
          init << "  " << x << " = getelementptr [" << a.n << " x " << ty(a.bits) << "], ptr " << a.name << ", i64 0, i64 " << at << "\n"
               << "  store " << ty(a.bits) << " " << cst(a.bits) << ", ptr " << x << "\n";
        }
      }
      p.arrays.push_back(a);
    }
    if (r.chance(12))
    {
      // an array of pointers into another array that is only accessed through them
      HlsArray tg, pp;
      tg.bits = bits();
      tg.n = 16;
      tg.name = "%hidden";
      pp.pointers = true;
      pp.bits = 64;
      pp.n = 4;
      pp.name = "%a" + std::to_string(k);
      pp.arg = k++;
      pp.target = p.arrays.size();
      p.arrays.push_back(tg);
      p.arrays.push_back(pp);
    }
    if (r.chance(25))
      for (int i = r.range(1, 2); i > 0; i--)
        makeHelper();
    std::string sig;
    int si = 0;
    if (l && !scalars)
      scalars = 1;
    auto scalar = [&]
    {
      int b = bits();
      sig += (sig.empty() ? "" : ", ") + ty(b) + " %x" + std::to_string(si);
      p.argBits.push_back(b);
      p.argArray.push_back(-1);
      std::string v = "%v" + std::to_string(si);
      entry << "  " << v << " = alloca " << ty(b) << "\n";
      init << "  store " << ty(b) << " %x" << si << ", ptr " << v << "\n";
      vars.push_back({ v, b });
      si++;
    };
    size_t left = scalars;
    for (size_t i = 0; i < p.arrays.size(); i++)
    {
      if (p.arrays[i].arg < 0)
        continue;
      if (left && r.chance(40))
        scalar(), left--;
      sig += (sig.empty() ? "" : ", ") + std::string("ptr ") + p.arrays[i].name;
      p.argBits.push_back(0);
      p.argArray.push_back(i);
    }
    while (left)
      scalar(), left--;
    if (l)
    {
      auto b = p.argBits[std::find(p.argArray.begin(), p.argArray.end(), -1) - p.argArray.begin()];
      entry << "  %lz" << (b == 64 ? "" : "0") << " = and " << ty(b) << " %x0, 0\n";
      if (b != 64)
        entry << "  %lz = zext " << ty(b) << " %lz0 to i64\n";
    }
    for (int i = r.range(1, 3); i > 0; i--)
    {
      int b = bits();
      std::string v = "%w" + std::to_string(i);
      entry << "  " << v << " = alloca " << ty(b) << "\n";
      init << "  store " << ty(b) << " " << cst(b) << ", ptr " << v << "\n";
      vars.push_back({ v, b });
    }
    p.retBits = r.chance(15) ? 0 : bits();
    allowReturn = r.chance(20);
    block(r.range(1, 3), 20);
    jump(retLabel);
    here(retLabel);
    std::string ret = "ret void";
    if (p.retBits)
    {
      auto v = expr(p.retBits, 2);
      // returning an argument unchanged is a known finding
      auto o = t();
      ins(o + " = mul " + ty(p.retBits) + " " + v + ", " + (r.chance(50) ? "3" : "5"));
      v = o;
      ret = "ret " + ty(p.retBits) + " " + v;
    }
    ins(ret);
    p.ir = globals.str() + helpers.str() + "define " + (p.retBits ? ty(p.retBits) : "void") + " @f(" + sig + ") {\n" + entry.str() + init.str() + body.str() + "}\n";
    static const char * pipes[] = { "mem2reg", "sroa", "mem2reg,simplifycfg", "sroa,early-cse,simplifycfg", "mem2reg,loop-simplify,loop(loop-rotate),simplifycfg",
      "sroa,loop-simplify,loop-mssa(loop-rotate,licm),simplifycfg", "mem2reg,gvn,adce", "mem2reg,simplifycfg<no-sink-common-insts;no-hoist-common-insts>,sink" };
    p.pipeline = pipes[l ? 0 : r.below(8)]; // local memories are only understood with an address computation at every access
    return p;
  }
};
}
HlsProgram knownHls(int i)
{
  HlsProgram p;
  p.pipeline = "mem2reg";
  auto array = [&](const std::string & name, int bits, size_t n, int arg)
  {
    HlsArray a;
    a.name = name;
    a.bits = bits;
    a.n = n;
    a.arg = arg;
    p.arrays.push_back(a);
  };
  switch (i)
  {
  case 0:
    p.ir = "define i32 @f(i32 %x) {\n  ret i32 %x\n}\n";
    p.argBits = { 32 };
    p.argArray = { -1 };
    break;
  case 1:
    p.ir = "define i32 @f(ptr %a, i64 %x) {\n  %l = alloca [4 x i32], align 8\n  %i = and i64 %x, 3\n"
           "  %p = getelementptr [4 x i32], ptr %l, i64 0, i64 %i\n  store i32 7, ptr %p\n  %v = load i32, ptr %p\n"
           "  %w = mul i32 %v, 3\n  store i32 %w, ptr %a\n  ret i32 %w\n}\n";
    p.argBits = { 0, 64 };
    p.argArray = { 0, -1 };
    array("%a", 32, 4, 0);
    break;
  case 3:
    p.ir = "define void @f(ptr %a, i16 %x) {\n  br label %h\nh:\n  %v = phi i32 [ 0, %0 ], [ %n, %b ]\n  %p = load ptr, ptr %a\n  %n = load i32, ptr %a\n"
           "  %w = trunc i32 %v to i8\n  %q = icmp slt i8 %w, 1\n  br i1 %q, label %e, label %b\nb:\n  br label %h\ne:\n  ret void\n}\n";
    p.argBits = { 0, 16 };
    p.argArray = { 0, -1 };
    p.retBits = 0;
    array("%a", 32, 4, 0);
    break;
  default:
    p.ir = "@g0 = global [4 x i32] [i32 11, i32 2, i32 -4, i32 35]\n"
           "define i8 @f(ptr %a0, i32 %x0) {\nentry:\n  %t0 = trunc i32 %x0 to i8\n  %t1 = and i8 %t0, 0\n  %t2 = or i8 %t1, 3\n  br label %h\nh:\n"
           "  %c = phi i8 [ %t2, %entry ], [ %d, %b ]\n  %v = phi i32 [ %x0, %entry ], [ %n, %b ]\n  %q = icmp ne i8 %c, 0\n"
           "  br i1 %q, label %b, label %e\nb:\n  %vz = zext i32 %v to i64\n  %i = and i64 %vz, 3\n"
           "  %p = getelementptr [4 x i32], ptr @g0, i64 0, i64 %i\n  %w = load i32, ptr %p\n  store i32 %w, ptr %a0\n"
           "  %cs = sext i8 %c to i32\n  %n = mul i32 %cs, 5\n  %d = add i8 %c, -1\n  br label %h\ne:\n  %ez = zext i32 %v to i64\n"
           "  %ei = and i64 %ez, 3\n  %ep = getelementptr [4 x i32], ptr @g0, i64 0, i64 %ei\n  store i32 0, ptr %ep\n  ret i8 0\n}\n";
    p.argBits = { 0, 32 };
    p.argArray = { 0, -1 };
    p.retBits = 8;
    array("%a0", 32, 4, 0);
    array("@g0", 32, 4, -1);
  }
  return p;
}
HlsProgram generateHls(Rng & r)
{
  Gen g(r);
  return g.run();
}
}
