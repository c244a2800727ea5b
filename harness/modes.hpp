#pragma once
#include "diff.hpp"
namespace vh
{
void modeHooks(const std::string & mode, const Program & p, TransformHooks & h);
// checks on the output of a successful run; empty if fine
std::string modePost(const std::string & mode, const Program & p, const std::vector<std::string> & passes, const Outcome & o, Report & rep);
int layoutMode(const Args & a);
int runMode(const std::string & cmd, const Args & a, int (*diffMode)(const Args &, const std::string &));
}
