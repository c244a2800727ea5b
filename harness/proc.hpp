#pragma once
#include "common.hpp"
#include <functional>
#include <string>
namespace vh
{
struct ChildResult
{
  bool exited = false;
  int code = 0;
  int sig = 0;
  bool cpuLimit = false;
  std::string out, err;
};
// runs fn in a forked child with stdout/stderr captured and a CPU limit
ChildResult runChild(const std::function<void()> & fn, int cpuSec, bool captureOut = true);
// short stable description of a crash: assertion text, sanitizer headline, exception
std::string crashKey(const ChildResult & r);
/** writes the coverage profile in coverage builds (children end with _exit) */
void covDump();
}
