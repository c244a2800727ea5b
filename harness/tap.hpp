#pragma once
#include "diff.hpp"
namespace vh
{
// modes that observe values of the RVSDG while the program runs: pta, alias, scev; and order
bool isTapMode(const std::string & mode);
void tapHooks(const std::string & mode, uint64_t seed, bool noMask, TransformHooks & h);
}
