#pragma once
#include <cstdint>
#include <map>
#include <string>
namespace vh
{
// empty if the interface of the output module is that of the input module
std::string checkModule(const std::string & inText, const std::string & outText, bool optimized, std::map<std::string, uint64_t> & stats);

std::string decorate(const std::string & text, uint64_t seed);
}
