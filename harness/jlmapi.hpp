#pragma once
#include "common.hpp"
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/Transformation.hpp>
#include <jlm/util/Statistics.hpp>
#include <jlm/tooling/CommandLine.hpp>

namespace vh
{
const std::vector<std::string> & passNames();
std::shared_ptr<jlm::rvsdg::Transformation> makePass(const std::string & name);
std::vector<std::string> o3Sequence();
std::unique_ptr<jlm::llvm::LlvmRvsdgModule> toRvsdg(llvm::Module & m, jlm::util::StatisticsCollector & sc);
std::unique_ptr<llvm::Module> toLlvm(jlm::llvm::LlvmRvsdgModule & rm, llvm::LLVMContext & ctx, jlm::util::StatisticsCollector & sc);
void runPass(jlm::llvm::LlvmRvsdgModule & rm, const std::string & name, jlm::util::StatisticsCollector & sc);
}
