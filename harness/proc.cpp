#include "proc.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <regex>
#ifdef VH_COV
extern "C" int __llvm_profile_write_file(void);
extern "C" void __llvm_profile_reset_counters(void);
#endif
namespace vh
{
void covDump()
{
#ifdef VH_COV
  __llvm_profile_write_file();
  __llvm_profile_reset_counters();
#endif
}
static std::string slurp(int fd, size_t limit = 1 << 20)
{
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof(b))) > 0 && s.size() < limit)
    s.append(b, n);
  return s;
}
ChildResult runChild(const std::function<void()> & fn, int cpuSec, bool captureOut)
{
  if (const char * nf = getenv("VH_NOFORK")) // debugging aid: the child number nf runs in this process
  {
    static int count = 0;
    if (++count == atoi(nf))
    {
      fn();
      _exit(0);
    }
  }
  int fo = memfd_create("o", 0), fe = memfd_create("e", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0)
  {
    if (captureOut)
      dup2(fo, 1);
    dup2(fe, 2);
    close(fo);
    close(fe);
    struct rlimit rl{ (rlim_t)cpuSec, (rlim_t)cpuSec + 5 };
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc{ 0, 0 };
    setrlimit(RLIMIT_CORE, &rc);
#ifdef VH_COV
    __llvm_profile_reset_counters();
#endif
#if !defined(__has_feature) || !__has_feature(address_sanitizer)
    struct rlimit ra{ 6ull << 30, 6ull << 30 };
    setrlimit(RLIMIT_AS, &ra);
#endif
    try
    {
      fn();
    }
    catch (std::exception & e)
    {
      fprintf(stderr, "uncaught exception: %s\n", e.what());
      _exit(98);
    }
    fflush(stdout);
    covDump();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  ChildResult r;
  r.out = slurp(fo);
  r.err = slurp(fe);
  close(fo);
  close(fe);
  if (WIFEXITED(st))
  {
    r.exited = true;
    r.code = WEXITSTATUS(st);
  }
  else
  {
    r.sig = WTERMSIG(st);
    r.cpuLimit = r.sig == SIGXCPU || r.sig == SIGKILL;
  }
  return r;
}
std::string crashKey(const ChildResult & r)
{
  std::smatch m;
  const std::string & e = r.err;
  static const std::regex asan("SUMMARY: AddressSanitizer: ([a-zA-Z0-9_-]+) [^ ]*/(jlm/[^ :]+)[^ ]* in ([^(<\n]+)");
  static const std::regex asan2("SUMMARY: (AddressSanitizer|UndefinedBehaviorSanitizer|LeakSanitizer): ([^\n]{0,160})");
  static const std::regex ub("([^ \n]*\\.[ch]pp):[0-9]+:[0-9]+: runtime error: ([^\n]{0,120})");
  if (std::regex_search(e, m, asan))
    return "asan:" + m[1].str() + ":" + m[2].str() + ":" + m[3].str();
  if (std::regex_search(e, m, ub))
    return "ubsan:" + m[1].str() + ":" + m[2].str();
  if (std::regex_search(e, m, asan2))
    return "asan:" + m[2].str();
  auto pos = e.find("Assertion");
  if (pos == std::string::npos)
    pos = e.find("uncaught exception");
  if (pos == std::string::npos)
    pos = e.find("ssert");
  std::string t;
  if (pos != std::string::npos)
  {
    auto ls = e.rfind('\n', pos);
    ls = ls == std::string::npos ? 0 : ls + 1;
    t = e.substr(ls, e.find('\n', pos) - ls);
  }
  else
    t = e.substr(0, e.find('\n'));
  for (auto & c : t)
    if (c == '\t')
      c = ' ';
  if (r.sig)
    return "signal" + std::to_string(r.sig) + ":" + t.substr(0, 200);
  return "exit" + std::to_string(r.code) + ":" + t.substr(0, 200);
}
}
