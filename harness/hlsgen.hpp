#pragma once
#include "common.hpp"
namespace vh
{
struct HlsArray
{
  std::string name;   // %a0 or @g0
  int bits = 32;
  size_t n = 8;
  int arg = -1;       // index among the pointer arguments, -1 for globals
  bool pointers = false; // array of pointers into the array 'target'
  int target = -1;
};
struct HlsProgram
{
  std::string ir;
  std::vector<HlsArray> arrays;
  std::vector<int> argBits;        // per argument: 0 pointer, otherwise the width
  std::vector<int> argArray;       // per pointer argument: array index
  int retBits = 32;
  std::string pipeline;
};
HlsProgram generateHls(Rng & r);
/** The inputs of the known findings. */
HlsProgram knownHls(int i);
constexpr int knownHlsInputs = 4;
}
