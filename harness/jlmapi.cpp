#include "jlmapi.hpp"
#include <unistd.h>
#include <jlm/llvm/ir/cfg.hpp>
#include <jlm/llvm/backend/IpGraphToLlvmConverter.hpp>
#include <jlm/llvm/backend/RvsdgToIpGraphConverter.hpp>
#include <jlm/llvm/DotWriter.hpp>
#include <jlm/llvm/frontend/InterProceduralGraphConversion.hpp>
#include <jlm/llvm/frontend/LlvmModuleConversion.hpp>
#include <jlm/llvm/ir/ipgraph-module.hpp>
#include <jlm/llvm/opt/AggregateAllocaSplitting.hpp>
#include <jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToAnalysisStateEncoder.hpp>
#include <jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp>
#include <jlm/llvm/opt/CommonNodeElimination.hpp>
#include <jlm/llvm/opt/DeadNodeElimination.hpp>
#include <jlm/llvm/opt/IfConversion.hpp>
#include <jlm/llvm/opt/inlining.hpp>
#include <jlm/llvm/opt/InvariantValueRedirection.hpp>
#include <jlm/llvm/opt/IOBarrierElimination.hpp>
#include <jlm/llvm/opt/LoadChainSeparation.hpp>
#include <jlm/llvm/opt/LoopStrengthReduction.hpp>
#include <jlm/llvm/opt/LoopUnswitching.hpp>
#include <jlm/llvm/opt/NodeReduction.hpp>
#include <jlm/llvm/opt/PredicateCorrelation.hpp>
#include <jlm/llvm/opt/pull.hpp>
#include <jlm/llvm/opt/push.hpp>
#include <jlm/llvm/opt/RvsdgTreePrinter.hpp>
#include <jlm/llvm/opt/ScalarEvolution.hpp>
#include <jlm/llvm/opt/StoreValueForwarding.hpp>
#include <jlm/llvm/opt/unroll.hpp>

#include <llvm/IR/Module.h>

namespace vh
{
using namespace jlm;
using Id = tooling::JlmOptCommandLineOptions::OptimizationId;

const std::vector<std::string> & passNames()
{
  static const std::vector<std::string> n = {
    "AAAndersenAgnostic", "AAAndersenRegionAware", "AggregateAllocaSplitting", "CommonNodeElimination",
    "DeadNodeElimination", "FunctionInlining", "IfConversion", "InvariantValueRedirection",
    "IOBarrierElimination", "LoadChainSeparation", "LoopStrengthReduction", "LoopUnrolling",
    "LoopUnswitching", "NodePullIn", "NodePushOut", "NodeReduction", "PredicateCorrelation",
    "ScalarEvolution", "StoreValueForwarding"
  };
  return n;
}
std::shared_ptr<rvsdg::Transformation> makePass(const std::string & n)
{
  using Andersen = jlm::llvm::aa::Andersen;
  if (n == "AAAndersenAgnostic")
    return std::make_shared<jlm::llvm::aa::PointsToAnalysisStateEncoder<Andersen, jlm::llvm::aa::AgnosticModRefSummarizer>>();
  if (n == "AAAndersenRegionAware")
    return std::make_shared<jlm::llvm::aa::PointsToAnalysisStateEncoder<Andersen, jlm::llvm::aa::RegionAwareModRefSummarizer>>();
  if (n == "AggregateAllocaSplitting") return std::make_shared<jlm::llvm::AggregateAllocaSplitting>();
  if (n == "CommonNodeElimination") return std::make_shared<jlm::llvm::CommonNodeElimination>();
  if (n == "DeadNodeElimination") return std::make_shared<jlm::llvm::DeadNodeElimination>();
  if (n == "FunctionInlining") return std::make_shared<jlm::llvm::FunctionInlining>();
  if (n == "IfConversion") return std::make_shared<jlm::llvm::IfConversion>();
  if (n == "InvariantValueRedirection")
    return std::make_shared<jlm::llvm::InvariantValueRedirection>(jlm::llvm::InvariantValueRedirection::Configuration());
  if (n == "IOBarrierElimination") return std::make_shared<jlm::llvm::IOBarrierElimination>();
  if (n == "LoadChainSeparation") return std::make_shared<jlm::llvm::LoadChainSeparation>();
  if (n == "LoopStrengthReduction") return std::make_shared<jlm::llvm::LoopStrengthReduction>();
  if (n == "LoopUnrolling") return std::make_shared<jlm::llvm::LoopUnrolling>(4);
  if (n == "LoopUnswitching")
    return std::make_shared<jlm::llvm::LoopUnswitching>(jlm::llvm::LoopUnswitchingDefaultHeuristic::create());
  if (n == "NodePullIn") return std::make_shared<jlm::llvm::NodeSinking>();
  if (n == "NodePushOut") return std::make_shared<jlm::llvm::NodeHoisting>();
  if (n == "NodeReduction") return std::make_shared<jlm::llvm::NodeReduction>();
  if (n == "PredicateCorrelation") return std::make_shared<jlm::llvm::PredicateCorrelation>();
  if (n == "ScalarEvolution") return std::make_shared<jlm::llvm::ScalarEvolution>();
  if (n == "StoreValueForwarding") return std::make_shared<jlm::llvm::StoreValueForwarding>();
  fprintf(stderr, "harness: unknown pass %s\n", n.c_str());
  _exit(97);
}
std::vector<std::string> o3Sequence()
{
  static std::vector<std::string> seq;
  if (!seq.empty())
    return seq;
  tooling::JlcCommandLineParser p;
  static const char * argv[] = { "jlc", "-O3", "foo.c", nullptr };
  auto & o = p.ParseCommandLineArguments(3, const_cast<char **>(argv));
  for (auto id : o.JlmOptOptimizations_)
  {
    auto n = std::string(tooling::JlmOptCommandLineOptions::ToCommandLineArgument(id));
    if (n != "RvsdgTreePrinter")
      seq.push_back(n);
  }
  return seq;
}
std::unique_ptr<jlm::llvm::LlvmRvsdgModule> toRvsdg(::llvm::Module & m, util::StatisticsCollector & sc)
{
  auto ipg = jlm::llvm::ConvertLlvmModule(m);
  return jlm::llvm::ConvertInterProceduralGraphModule(*ipg, sc);
}
std::unique_ptr<::llvm::Module> toLlvm(jlm::llvm::LlvmRvsdgModule & rm, ::llvm::LLVMContext & ctx, util::StatisticsCollector & sc)
{
  auto ipg = jlm::llvm::RvsdgToIpGraphConverter::CreateAndConvertModule(rm, sc);
  if (auto f = getenv("VH_DUMP_CFG"))
  {
    auto dbg = fopen(f, "w");
    for (auto & n : ipg->ipgraph())
      if (auto f = dynamic_cast<const jlm::llvm::FunctionNode *>(&n); f && f->cfg())
        fprintf(dbg, "CFG %s\n%s\n", f->name().c_str(), jlm::llvm::ControlFlowGraph::ToAscii(*f->cfg()).c_str());
    fclose(dbg);
  }
  return jlm::llvm::IpGraphToLlvmConverter::CreateAndConvertModule(*ipg, ctx);
}
void runPass(jlm::llvm::LlvmRvsdgModule & rm, const std::string & name, util::StatisticsCollector & sc)
{
  makePass(name)->Run(rm, sc);
}
}
