#pragma once
#include <cstdint>
#include <map>
#include <string>
namespace jlm::rvsdg { class Graph; }
namespace vh
{
struct GraphStats
{
  uint64_t nodes = 0, edges = 0, regions = 0, structural = 0, thetas = 0, gammas = 0, lambdas = 0, phis = 0, deltas = 0;
  std::map<std::string, uint64_t> ops;
};
// empty if the graph is well-formed
std::string checkGraph(jlm::rvsdg::Graph & g, GraphStats & st);
}
