From f67a65d7c93231e831a75aa55f1e437c9f6acd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 01/74] fix: update SSA phis when an endless loop is given an
 exit edge

The edge from the latch of an endless loop was rerouted through a new basic
block without adjusting the incoming nodes of the SSA phis in the loop header,
leaving an invalid CFG (assertion in prune()).
---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 47 +++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index f2e86c7..9946bb7 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -2362,6 +2362,48 @@ convert_argument(const ::llvm::Argument & argument, Context & ctx)
   return llvm::Argument::create(name, type, attributes);
 }
 
+/**
+ * Adjusts the SSA phi operations of \p basicBlock after a single control flow edge from \p oldSource
+ * to \p basicBlock was rerouted through \p newSource.
+ */
+static void
+RedirectPhiIncomingNode(
+    BasicBlock & basicBlock,
+    ControlFlowGraphNode & oldSource,
+    ControlFlowGraphNode & newSource)
+{
+  // There might be other edges from the old source left
+  bool isStillPredecessor = false;
+  for (auto & inEdge : basicBlock.InEdges())
+    isStillPredecessor |= inEdge.source() == &oldSource;
+
+  for (const auto tac : basicBlock)
+  {
+    const auto phi = dynamic_cast<const SsaPhiOperation *>(&tac->operation());
+    if (!phi)
+      break;
+
+    std::vector<ControlFlowGraphNode *> incomingNodes;
+    std::vector<const Variable *> operands;
+    for (size_t n = 0; n < tac->noperands(); n++)
+    {
+      const auto isRedirected = phi->GetIncomingNode(n) == &oldSource;
+      if (!isRedirected || isStillPredecessor)
+      {
+        incomingNodes.push_back(phi->GetIncomingNode(n));
+        operands.push_back(tac->operand(n));
+      }
+      if (isRedirected)
+      {
+        incomingNodes.push_back(&newSource);
+        operands.push_back(tac->operand(n));
+      }
+    }
+
+    tac->replace(SsaPhiOperation(std::move(incomingNodes), phi->Type()), operands);
+  }
+}
+
 static void
 EnsureSingleInEdgeToExitNode(ControlFlowGraph & cfg)
 {
@@ -2406,10 +2448,13 @@ EnsureSingleInEdgeToExitNode(ControlFlowGraph & cfg)
             basicBlock->append_last(ThreeAddressCode::create(std::move(op), {}))->result(0);
         basicBlock->append_last(BranchOperation::create(2, operand));
 
+        const auto source = repetitionEdge->source();
+        const auto sink = repetitionEdge->sink();
         basicBlock->add_outedge(exitNode);
-        basicBlock->add_outedge(repetitionEdge->sink());
+        basicBlock->add_outedge(sink);
 
         repetitionEdge->divert(basicBlock);
+        RedirectPhiIncomingNode(*util::assertedCast<BasicBlock>(sink), *source, *basicBlock);
         break;
       }
     }
-- 
2.43.0


From 9f451072e9110b7bc5ae3faf46b263582d33d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 02/74] fix: convert selects of vectors with a scalar condition

The kind of select was chosen from the type of the result, such that a select
with a scalar condition between two vectors was rejected.
---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index 9946bb7..2d37279 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -1853,7 +1853,7 @@ convert_select_instruction(::llvm::Instruction * i, tacsvector_t & tacs, Context
   auto t = ConvertValue(instruction->getTrueValue(), tacs, ctx);
   auto f = ConvertValue(instruction->getFalseValue(), tacs, ctx);
 
-  if (i->getType()->isVectorTy())
+  if (instruction->getCondition()->getType()->isVectorTy())
     tacs.push_back(VectorSelectOperation::create(p, t, f));
   else
     tacs.push_back(SelectOperation::create(p, t, f));
-- 
2.43.0


From 92dcb287c1c53cce7c4270c059d7bcd610ebbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 03/74] fix: generate code for switches on i1 with arbitrary
 mappings

A match of a 1 bit value was always assumed to be either the identity or the
negation, and to have exactly two alternatives.
---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index c69d1ab..8c44584 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -326,17 +326,19 @@ IpGraphToLlvmConverter::convert_match(
   JLM_ASSERT(is<rvsdg::MatchOperation>(op));
   auto mop = static_cast<const rvsdg::MatchOperation *>(&op);
 
-  if (is_identity_mapping(*mop))
-    return Context_->value(args[0]);
-
   if (mop->nalternatives() == 2 && mop->nbits() == 1)
   {
-    auto i1 = ::llvm::IntegerType::get(builder.getContext(), 1);
-    auto t = ::llvm::ConstantInt::getFalse(i1);
-    auto f = ::llvm::ConstantInt::getTrue(i1);
+    if (mop->alternative(0) == 0 && mop->alternative(1) == 1)
+      return Context_->value(args[0]);
+
+    auto t = builder.getInt1(mop->alternative(1));
+    auto f = builder.getInt1(mop->alternative(0));
     return builder.CreateSelect(Context_->value(args[0]), t, f);
   }
 
+  if (is_identity_mapping(*mop))
+    return Context_->value(args[0]);
+
   /* FIXME: This is not working if the match is not directly connected to a gamma node. */
   return Context_->value(args[0]);
 }
@@ -1903,7 +1905,7 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
   JLM_ASSERT(branch && is<BranchOperation>(branch));
 
   // conditional branch
-  if (Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
+  if (node->NumOutEdges() == 2 && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
   // switch
-- 
2.43.0


From a028a2be01fb34353835d1d68ffe5d95d79abb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 04/74] fix: handle memmove in the agnostic mod/ref summarizer
 and in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp                   | 10 ++++++++++
 .../opt/alias-analyses/AgnosticModRefSummarizer.cpp    |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 11723b1..9c5c021 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -428,6 +428,16 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
                 currentOutput =
                     MemCpyOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
               },
+              [&](const MemMoveOperation &)
+              {
+                // FIXME: We really would like to know here which memory state belongs to the source
+                // and which to the dst address. This would allow us to be more precise in the
+                // separation.
+                hasModRefChainLinkAboveInRegion = true;
+                currentModRefChain.add({ currentOutput, ModRefChainLink::Type::Modification });
+                currentOutput =
+                    MemMoveOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
+              },
               [&](const MemSetOperation &)
               {
                 hasModRefChainLinkAboveInRegion = true;
diff --git a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
index 602d8ae..fc2e8c8 100644
--- a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
@@ -255,6 +255,15 @@ AgnosticModRefSummarizer::AnnotateSimpleNode(const rvsdg::SimpleNode & node)
         AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
         ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
       },
+      [&](const MemMoveOperation &)
+      {
+        AgnosticModRefSet modRefSet;
+        const auto & srcAddress = *MemMoveOperation::sourceInput(node).origin();
+        const auto & dstAddress = *MemMoveOperation::destinationInput(node).origin();
+        AddPointerTargetsToModRefSet(srcAddress, ModRefEffect::RefOnly, modRefSet);
+        AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
+        ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
+      },
       [&](const MemSetOperation &)
       {
         AgnosticModRefSet modRefSet;
-- 
2.43.0


From 4f2b2c1701750a366d07269c545d6788fa998e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 05/74] fix: handle select operations in the Andersen alias
 analysis

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 22 ++++++++++++++++++++++
 jlm/llvm/opt/alias-analyses/Andersen.hpp |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 8a338f9..d12b5ee 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -682,6 +682,10 @@ Andersen::AnalyzeSimpleNode(const rvsdg::SimpleNode & node)
       {
         AnalyzeFreeze(node);
       },
+      [&](const SelectOperation &)
+      {
+        AnalyzeSelect(node);
+      },
       [&](const MemCpyOperation &)
       {
         AnalyzeMemcpy(node);
@@ -967,6 +971,24 @@ Andersen::AnalyzeFreeze(const rvsdg::SimpleNode & node)
   Set_->MapRegisterToExistingPointerObject(output, operandPO);
 }
 
+void
+Andersen::AnalyzeSelect(const rvsdg::SimpleNode & node)
+{
+  JLM_ASSERT(is<SelectOperation>(node.GetOperation()));
+  const auto & output = *node.output(0);
+
+  if (!IsOrContainsPointerType(*output.Type()))
+    return;
+
+  // The result can be either of the two operands. Input 0 is the predicate.
+  const auto outputPO = Set_->CreateRegisterPointerObject(output);
+  for (size_t n = 1; n < node.ninputs(); n++)
+  {
+    const auto operandPO = Set_->GetRegisterPointerObject(*node.input(n)->origin());
+    Constraints_->AddConstraint(SupersetConstraint(outputPO, operandPO));
+  }
+}
+
 void
 Andersen::AnalyzeMemcpy(const rvsdg::SimpleNode & node)
 {
diff --git a/jlm/llvm/opt/alias-analyses/Andersen.hpp b/jlm/llvm/opt/alias-analyses/Andersen.hpp
index dee5a4b..e9e9133 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.hpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.hpp
@@ -391,6 +391,9 @@ private:
   void
   AnalyzeFreeze(const rvsdg::SimpleNode & node);
 
+  void
+  AnalyzeSelect(const rvsdg::SimpleNode & node);
+
   void
   AnalyzeMemcpy(const rvsdg::SimpleNode & node);
 
-- 
2.43.0


From c7d11ef2ac29dfb98491e8d40fc5cbb588476e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 06/74] fix: route context variables of deltas in phi nodes in
 store value forwarding

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 31 ++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index faec2db..58160a3 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -1124,6 +1124,33 @@ copyRegionSlice(
   }
 }
 
+/**
+ * Maps an argument of the region of a phi node to the respective output outside of the phi node,
+ * as long as the region is not an ancestor of \p targetRegion. The returned output can be routed to
+ * \p targetRegion.
+ */
+static rvsdg::Output &
+mapOutOfPhiRegions(rvsdg::Output & output, const rvsdg::Region & targetRegion)
+{
+  auto current = &output;
+  while (current->region() != &targetRegion
+         && !rvsdg::Region::isAncestor(targetRegion, *current->region()))
+  {
+    auto phiNode = rvsdg::TryGetRegionParentNode<rvsdg::PhiNode>(*current);
+    if (!phiNode)
+      break;
+
+    if (const auto fixVar = phiNode->MapArgumentFixVar(*current))
+      current = fixVar->output;
+    else if (const auto ctxVar = phiNode->MapArgumentContextVar(*current))
+      current = ctxVar->input->origin();
+    else
+      break;
+  }
+
+  return *current;
+}
+
 static rvsdg::Output &
 copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
 {
@@ -1135,7 +1162,9 @@ copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
   for (auto oldArgument : regionSlice.arguments.Items())
   {
     auto ctxVar = deltaNode->MapBinderContextVar(*oldArgument);
-    auto & newArgument = rvsdg::RouteToRegion(*ctxVar.input->origin(), targetRegion);
+    auto & newArgument = rvsdg::RouteToRegion(
+        mapOutOfPhiRegions(*ctxVar.input->origin(), targetRegion),
+        targetRegion);
     substitutionMap.insert(oldArgument, &newArgument);
   }
 
-- 
2.43.0


From 1ebfb99e5cb1073396aaf79b6e3aa7ef084fc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 07/74] fix: do not create recurrences for loop variables
 without self dependency

---
 jlm/llvm/opt/ScalarEvolution.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 2a89ee2..f78fca8 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -1917,6 +1917,13 @@ bool
 ScalarEvolution::CanCreateChainRecurrence(rvsdg::Output & output, DependencyGraph & dependencyGraph)
 {
   auto deps = dependencyGraph[&output];
+  if (rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(output) && deps.find(&output) == deps.end())
+  {
+    // The value of the loop variable does not evolve from its value in the previous iteration. Only
+    // its value in the first iteration is the initial value of the loop variable.
+    return false;
+  }
+
   if (deps.find(&output) != deps.end())
   {
     if (deps[&output].count != 1)
-- 
2.43.0


From cfddff16715f13bc0afb338584dc333d89be6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 08/74] fix: recognize self dependencies through
 multiplications of sums in scalar evolution

---
 jlm/llvm/opt/ScalarEvolution.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index f78fca8..9b1d6ee 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -1115,8 +1115,11 @@ ScalarEvolution::FindDependenciesForSCEV(
 
   if (const auto addSCEV = dynamic_cast<const SCEVAddExpr *>(&scev))
   {
-    FindDependenciesForSCEV(*addSCEV->GetLeftOperand(), dependencies, DependencyOp::Add);
-    FindDependenciesForSCEV(*addSCEV->GetRightOperand(), dependencies, DependencyOp::Add);
+    // A dependency through an addition that is an operand of a multiplication, e.g., (x + 1) * 2, is
+    // still a dependency through a multiplication
+    const auto addOp = op == DependencyOp::Mul ? DependencyOp::Mul : DependencyOp::Add;
+    FindDependenciesForSCEV(*addSCEV->GetLeftOperand(), dependencies, addOp);
+    FindDependenciesForSCEV(*addSCEV->GetRightOperand(), dependencies, addOp);
   }
 
   if (const auto mulSCEV = dynamic_cast<const SCEVMulExpr *>(&scev))
-- 
2.43.0


From c7dbd88dc456eeb48a4fbb41503d8310d381204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 09/74] fix: generate pointer phis for function values routed
 through structural nodes

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 8c44584..7e2982b 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -368,6 +368,10 @@ IpGraphToLlvmConverter::convert_phi(
   if (rvsdg::is<MemoryStateType>(phi.Type()))
     return nullptr;
 
+  // Function values are represented as pointers in LLVM
+  if (rvsdg::is<rvsdg::FunctionType>(phi.Type()))
+    return builder.CreatePHI(::llvm::PointerType::getUnqual(llvmContext), op.narguments());
+
   auto t = typeConverter.ConvertJlmType(*phi.Type(), llvmContext);
   return builder.CreatePHI(t, op.narguments());
 }
-- 
2.43.0


From 864b6a3aa8b6f7c81e507b7bfef643e2e594904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 10/74] fix: respect memory node compression when inlining
 calls with encoded memory states

---
 jlm/llvm/opt/inlining.cpp | 83 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index a4eebf7..0bbbef6 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -11,6 +11,7 @@
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/ir/Trace.hpp>
+#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
@@ -153,7 +154,9 @@ routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode &
  * In these cases, we want to remove all the merge and split nodes, and route the relevant memory
  * states into the function body directly. Memory state IDs that are unused within the function,
  * such as [9] in the example above, are instead routed around from the call merge.
- * Memory states IDs that only exist inside the function body are given undef nodes.
+ * Memory states IDs that only exist on one of the two sides are represented by the memory state of
+ * the external memory node on the other side, if it exists. Otherwise, memory state IDs that only
+ * exist inside the function body are given undef nodes.
  * @param callEntryMerge the call entry merge node in the diagram above
  * @param callExitSplit the call exit split node in the diagram above
  */
@@ -186,16 +189,57 @@ tryRerouteMemoryStateMergeAndSplit(
   if (!lambdaExitSplitOp)
     return;
 
+  // Different functions may compress different sets of memory nodes into the external memory node.
+  // A memory node that lacks a memory state edge in one of the functions may therefore be
+  // represented by the memory state edge of the external memory node in that function.
+  constexpr auto externalMemoryNode = aa::PointsToGraph::externalMemoryNode;
+  const auto joinStates = [](const std::vector<rvsdg::Output *> & states) -> rvsdg::Output *
+  {
+    if (states.size() <= 1)
+      return states.empty() ? nullptr : states.front();
+
+    return MemoryStateJoinOperation::CreateNode(states).output(0);
+  };
+
   // For each memory state output of the lambdaEntrySplit, move its users or create undef nodes
   for (auto & output : lambdaEntrySplit->Outputs())
   {
-    auto memoryStateId = LambdaEntryMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
+    const auto memoryStateId = LambdaEntryMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
     auto mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         callEntryMerge,
         memoryStateId);
+    if (mergeInput == nullptr)
+    {
+      mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+          callEntryMerge,
+          externalMemoryNode);
+    }
+
+    std::vector<rvsdg::Output *> states;
     if (mergeInput)
+      states.push_back(mergeInput->origin());
+
+    if (memoryStateId == externalMemoryNode)
+    {
+      // Include the states of all memory nodes that might be compressed in the callee
+      for (const auto callStateId : callEntryMergeOp->getMemoryNodeIds())
+      {
+        if (callStateId != externalMemoryNode
+            && !LambdaEntryMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(
+                *lambdaEntrySplit,
+                callStateId))
+        {
+          states.push_back(CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+                               callEntryMerge,
+                               callStateId)
+                               ->origin());
+        }
+      }
+    }
+
+    if (const auto state = joinStates(states))
     {
-      output.divert_users(mergeInput->origin());
+      output.divert_users(state);
     }
     else
     {
@@ -208,13 +252,42 @@ tryRerouteMemoryStateMergeAndSplit(
   // For each memory state output of the callExitSplit, move its users
   for (auto & output : callExitSplit.Outputs())
   {
-    auto memoryStateId = CallExitMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
+    const auto memoryStateId = CallExitMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
     auto exitMergeInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         *lambdaExitSplit,
         memoryStateId);
+    if (exitMergeInput == nullptr)
+    {
+      exitMergeInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+          *lambdaExitSplit,
+          externalMemoryNode);
+    }
+
+    std::vector<rvsdg::Output *> states;
     if (exitMergeInput)
+      states.push_back(exitMergeInput->origin());
+
+    if (memoryStateId == externalMemoryNode)
+    {
+      // Include the states of all memory nodes that might be compressed in the caller
+      for (const auto lambdaStateId : lambdaExitSplitOp->getMemoryNodeIds())
+      {
+        if (lambdaStateId != externalMemoryNode
+            && !CallExitMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(
+                callExitSplit,
+                lambdaStateId))
+        {
+          states.push_back(LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+                               *lambdaExitSplit,
+                               lambdaStateId)
+                               ->origin());
+        }
+      }
+    }
+
+    if (const auto state = joinStates(states))
     {
-      output.divert_users(exitMergeInput->origin());
+      output.divert_users(state);
     }
     else
     {
-- 
2.43.0


From 21cc5e8a4631d0fc0a11616c334647f935fdd389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 11/74] fix: keep memory states of volatile loads in invariant
 value redirection

---
 jlm/llvm/opt/InvariantValueRedirection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/InvariantValueRedirection.cpp b/jlm/llvm/opt/InvariantValueRedirection.cpp
index bb526ed..8be6dd8 100644
--- a/jlm/llvm/opt/InvariantValueRedirection.cpp
+++ b/jlm/llvm/opt/InvariantValueRedirection.cpp
@@ -162,7 +162,7 @@ InvariantValueRedirection::redirectInRegion(rvsdg::Region & region)
                 if (configuration_.enableCallOutputRedirection)
                   redirectCallOutputs(simpleNode);
               },
-              [this, &simpleNode](const LoadOperation &)
+              [this, &simpleNode](const LoadNonVolatileOperation &)
               {
                 if (configuration_.enableLoadMemoryStateRedirection)
                   redirectLoadMemoryStates(simpleNode);
-- 
2.43.0


From a86aa551008830e8f6aeb55f98eb70931fe201db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 12/74] fix: handle vector types in getelementptr offset
 computation

---
 jlm/llvm/ir/operators/GetElementPtr.cpp | 8 ++++++++
 jlm/llvm/opt/ScalarEvolution.cpp        | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/GetElementPtr.cpp b/jlm/llvm/ir/operators/GetElementPtr.cpp
index e5daca8..0839187 100644
--- a/jlm/llvm/ir/operators/GetElementPtr.cpp
+++ b/jlm/llvm/ir/operators/GetElementPtr.cpp
@@ -97,6 +97,14 @@ GetElementPtrOperation::Constant::getOffsetInBytes() const noexcept
       return offsetInBytes;
     }
 
+    if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
+    {
+      const auto & elementType = vectorType->type();
+      int64_t offsetInBytes = indexValue * GetTypeAllocSize(elementType);
+      offsetInBytes += computeIntraTypeOffset(index + 1, elementType);
+      return offsetInBytes;
+    }
+
     throw std::logic_error("Unknown GetElementPtr type");
   };
 
diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 9b1d6ee..146a7c9 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -1061,9 +1061,11 @@ ScalarEvolution::ComputeSCEVForGepInnerOffset(
   }
 
   const auto gepInput = gepNode.input(inputIndex);
-  if (const auto arrayType = dynamic_cast<const ArrayType *>(&type))
+  const auto arrayType = dynamic_cast<const ArrayType *>(&type);
+  const auto vectorType = dynamic_cast<const VectorType *>(&type);
+  if (arrayType || vectorType)
   {
-    const auto & elementType = *arrayType->GetElementType();
+    const auto & elementType = arrayType ? *arrayType->GetElementType() : vectorType->type();
     auto offset = SCEVMulExpr::Create(
         GetOrCreateSCEVForOutput(*gepInput->origin()),
         SCEVConstant::Create(GetTypeAllocSize(elementType)));
-- 
2.43.0


From 49b9f62923c6d3fc00980f985d40c078e61037f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 13/74] fix: derive the result type of shufflevector from its
 mask

---
 jlm/llvm/ir/operators/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/operators.hpp b/jlm/llvm/ir/operators/operators.hpp
index 9b39190..d02ca52 100644
--- a/jlm/llvm/ir/operators/operators.hpp
+++ b/jlm/llvm/ir/operators/operators.hpp
@@ -1226,14 +1226,14 @@ public:
   ShuffleVectorOperation(
       const std::shared_ptr<const FixedVectorType> & v,
       const std::vector<int> & mask)
-      : SimpleOperation({ v, v }, { v }),
+      : SimpleOperation({ v, v }, { FixedVectorType::Create(v->Type(), mask.size()) }),
         Mask_(mask)
   {}
 
   ShuffleVectorOperation(
       const std::shared_ptr<const ScalableVectorType> & v,
       const std::vector<int> & mask)
-      : SimpleOperation({ v, v }, { v }),
+      : SimpleOperation({ v, v }, { ScalableVectorType::Create(v->Type(), mask.size()) }),
         Mask_(mask)
   {}
 
-- 
2.43.0


From 5564e4dd923bd36218f0311beae6a3adb962e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 14/74] fix: bail out of forwarding loads that constant
 initializations cannot express

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 109 +++++++++++++++++---------
 1 file changed, 70 insertions(+), 39 deletions(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index 58160a3..c4c21e7 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -1172,7 +1172,13 @@ copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
   return substitutionMap.lookup(output);
 }
 
-static rvsdg::Output &
+/**
+ * Copies the constant that is loaded from the initialization of a delta node to \p targetRegion.
+ *
+ * @return The loaded constant, or nullptr if the load can not be expressed by the constants of the
+ * initialization.
+ */
+static rvsdg::Output *
 copyDeltaElement(
     const uint64_t elementOffsetInBytes,
     rvsdg::Output & output,
@@ -1183,102 +1189,125 @@ copyDeltaElement(
   {
     return rvsdg::MatchTypeWithDefault(
         node->GetOperation(),
-        [&](const IntegerConstantOperation &) -> rvsdg::Output &
+        [&](const IntegerConstantOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
+          const auto loadBitType = dynamic_cast<const rvsdg::BitType *>(loadedType.get());
+          if (elementOffsetInBytes != 0 || loadBitType == nullptr)
+            return nullptr;
+
           auto copiedOutput = &copyDeltaRegionSlice(output, targetRegion);
 
-          const auto loadBitType = util::assertedCast<const rvsdg::BitType>(loadedType.get());
           const auto copiedBitType =
               util::assertedCast<const rvsdg::BitType>(copiedOutput->Type().get());
           if (copiedBitType->nbits() == loadBitType->nbits())
           {
-            return *copiedOutput;
+            return copiedOutput;
           }
 
           if (loadBitType->nbits() < copiedBitType->nbits())
           {
-            return *TruncOperation::createNode(*copiedOutput, loadedType).output(0);
+            return TruncOperation::createNode(*copiedOutput, loadedType).output(0);
           }
 
           // FIXME: In this case, we would need to concat multiple integers.
-          return *copiedOutput;
+          return copiedOutput;
         },
-        [&](const ConstantFP &) -> rvsdg::Output &
+        [&](const ConstantFP &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
+          return &copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const ConstantPointerNullOperation &) -> rvsdg::Output &
+        [&](const ConstantPointerNullOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
+          return &copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const FunctionToPointerOperation &) -> rvsdg::Output &
+        [&](const FunctionToPointerOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
+          return &copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const IntToPtrOperation &) -> rvsdg::Output &
+        [&](const IntToPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
+          return &copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const GetElementPtrOperation &) -> rvsdg::Output &
+        [&](const GetElementPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
+          return &copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output &
+        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output *
         {
+          // Ensure that all loaded bytes are zero
+          if (elementOffsetInBytes + GetTypeStoreSize(*loadedType)
+              > GetTypeStoreSize(*output.Type()))
+            return nullptr;
+
           if (is<PointerType>(loadedType))
           {
-            return *ConstantPointerNullOperation::createNode(targetRegion).output(0);
+            return ConstantPointerNullOperation::createNode(targetRegion).output(0);
           }
 
           if (const auto bitType = std::dynamic_pointer_cast<const rvsdg::BitType>(loadedType))
           {
-            return *IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
+            return IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
           }
 
           if (const auto floatType = std::dynamic_pointer_cast<const FloatingPointType>(loadedType))
           {
             const auto zero = ConstantFP::getZeroRepresentation(floatType->size());
-            return *ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
+            return ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
           }
 
           if (const auto vectorType = std::dynamic_pointer_cast<const FixedVectorType>(loadedType))
           {
-            return *ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
+            return ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
           }
 
-          throw std::logic_error("Unsupported load type");
+          return nullptr;
         },
-        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output &
+        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output *
         {
           const auto arrayType = constantArrayOperation.type();
           const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
 
           const auto index = elementOffsetInBytes / elementSizeInBytes;
+          if (index >= node->ninputs())
+            return nullptr;
+
           return copyDeltaElement(
               elementOffsetInBytes - (elementSizeInBytes * index),
               *node->input(index)->origin(),
               targetRegion,
               loadedType);
         },
-        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output &
+        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output *
         {
           const auto arrayType = constantDataArrayOperation.type();
           const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
 
           const auto index = elementOffsetInBytes / elementSizeInBytes;
+          if (index >= node->ninputs())
+            return nullptr;
+
           return copyDeltaElement(
               elementOffsetInBytes - (elementSizeInBytes * index),
               *node->input(index)->origin(),
               targetRegion,
               loadedType);
         },
-        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output &
+        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output *
         {
           auto & structType = constantStruct.type();
 
@@ -1311,19 +1340,21 @@ copyDeltaElement(
               targetRegion,
               loadedType);
         },
-        [&]() -> rvsdg::Output &
+        []() -> rvsdg::Output *
         {
-          throw std::logic_error("Unsupported operation: " + node->DebugString());
+          return nullptr;
         });
   }
 
   if (rvsdg::TryGetRegionParentNode<rvsdg::DeltaNode>(output))
   {
-    JLM_ASSERT(elementOffsetInBytes == 0);
-    return copyDeltaRegionSlice(output, targetRegion);
+    if (elementOffsetInBytes != 0)
+      return nullptr;
+
+    return &copyDeltaRegionSlice(output, targetRegion);
   }
 
-  throw std::logic_error("Unsupported output owner");
+  return nullptr;
 }
 
 void
@@ -1346,19 +1377,19 @@ StoreValueForwarding::forwardLoadWithoutMemoryStates(
   JLM_ASSERT(tracedDelta.gepConstants.size() <= 1);
   const uint64_t offsetInBytes =
       tracedDelta.gepConstants.empty() ? 0 : tracedDelta.gepConstants.front().getOffsetInBytes();
-  auto & newOutput = copyDeltaElement(
+  const auto newOutput = copyDeltaElement(
       offsetInBytes,
       deltaResultOrigin,
       *loadNode.region(),
       loadOperation->GetLoadedType());
 
-  if (*loadOperation->GetLoadedType() != *newOutput.Type())
+  if (newOutput == nullptr || *loadOperation->GetLoadedType() != *newOutput->Type())
   {
     // FIXME:
     return;
   }
 
-  LoadOperation::LoadedValueOutput(loadNode).divert_users(&newOutput);
+  LoadOperation::LoadedValueOutput(loadNode).divert_users(newOutput);
   context_->numForwardedLoadsWithoutMemoryState++;
 }
 
-- 
2.43.0


From 7374e56ac98d84ce5cfa8d39ba1f047ff4b6d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 15/74] fix: generate control values for match operations that
 are not directly connected to a branch

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 65 +++++++++++++++------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 7e2982b..3883f27 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -33,6 +33,7 @@
 #include <llvm/IR/BasicBlock.h>
 #include <llvm/IR/IRBuilder.h>
 #include <llvm/IR/Module.h>
+#include <llvm/Transforms/Utils/Local.h>
 
 #include <unordered_map>
 
@@ -305,18 +306,6 @@ IpGraphToLlvmConverter::convert(
   return callInstruction;
 }
 
-static bool
-is_identity_mapping(const rvsdg::MatchOperation & op)
-{
-  for (const auto & pair : op)
-  {
-    if (pair.first != pair.second)
-      return false;
-  }
-
-  return true;
-}
-
 ::llvm::Value *
 IpGraphToLlvmConverter::convert_match(
     const rvsdg::SimpleOperation & op,
@@ -336,11 +325,26 @@ IpGraphToLlvmConverter::convert_match(
     return builder.CreateSelect(Context_->value(args[0]), t, f);
   }
 
-  if (is_identity_mapping(*mop))
-    return Context_->value(args[0]);
+  // The result of the match operation is a control value, which might not only be used by the branch
+  // it is directly connected to, but also by phi or control to integer operations. Branches directly
+  // connected to the match operation use its operand. The control value is removed again if it
+  // turns out to be unused.
+  auto & context = builder.getContext();
+  auto operand = Context_->value(args[0]);
+  auto controlType = Context_->GetTypeConverter().ConvertJlmType(*mop->result(0), context);
+  ::llvm::Value * value = ::llvm::ConstantInt::get(controlType, mop->default_alternative());
+  for (const auto & [bits, alternative] : *mop)
+  {
+    if (alternative == mop->default_alternative())
+      continue;
 
-  /* FIXME: This is not working if the match is not directly connected to a gamma node. */
-  return Context_->value(args[0]);
+    auto isEqual =
+        builder.CreateICmpEQ(operand, ::llvm::ConstantInt::get(operand->getType(), bits));
+    value =
+        builder.CreateSelect(isEqual, ::llvm::ConstantInt::get(controlType, alternative), value);
+  }
+
+  return value;
 }
 
 ::llvm::Value *
@@ -1858,11 +1862,11 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
 
   auto branch = bb->tacs().last();
   JLM_ASSERT(branch && is<BranchOperation>(branch));
-  auto condition = Context_->value(branch->operand(0));
   auto match = get_match(branch);
 
   if (is<rvsdg::MatchOperation>(match))
   {
+    auto condition = Context_->value(match->operand(0));
     JLM_ASSERT(match->result(0) == branch->operand(0));
     auto mop = static_cast<const rvsdg::MatchOperation *>(&match->operation());
 
@@ -1878,6 +1882,7 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
   }
   else
   {
+    auto condition = Context_->value(branch->operand(0));
     auto defbb = Context_->basic_block(node->OutEdge(node->NumOutEdges() - 1)->sink());
     auto sw = builder.CreateSwitch(condition, defbb);
     for (size_t n = 0; n < node->NumOutEdges() - 1; n++)
@@ -1908,8 +1913,16 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
   auto branch = tacs.last();
   JLM_ASSERT(branch && is<BranchOperation>(branch));
 
+  // Branches that are directly connected to a match operation on more than one bit switch on the
+  // operand of the match operation
+  const auto match = get_match(branch);
+  const auto matchOperation =
+      match ? dynamic_cast<const rvsdg::MatchOperation *>(&match->operation()) : nullptr;
+  const auto isMultiBitMatch = matchOperation && matchOperation->nbits() != 1;
+
   // conditional branch
-  if (node->NumOutEdges() == 2 && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
+  if (node->NumOutEdges() == 2 && !isMultiBitMatch
+      && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
   // switch
@@ -2218,6 +2231,22 @@ IpGraphToLlvmConverter::convert_cfg(ControlFlowGraph & cfg, ::llvm::Function & f
             Context_->basic_block(op.GetIncomingNode(n)));
     }
   }
+
+  // remove unused control values of match operations
+  ::llvm::SmallVector<::llvm::WeakTrackingVH> controlValues;
+  for (const auto & node : nodes)
+  {
+    if (node == cfg.entry() || node == cfg.exit())
+      continue;
+
+    for (const auto & tac : static_cast<const BasicBlock *>(node)->tacs())
+    {
+      if (is<rvsdg::MatchOperation>(tac)
+          && ::llvm::isa<::llvm::SelectInst>(Context_->value(tac->result(0))))
+        controlValues.push_back(Context_->value(tac->result(0)));
+    }
+  }
+  ::llvm::RecursivelyDeleteTriviallyDeadInstructionsPermissive(controlValues);
 }
 
 void
-- 
2.43.0


From c0d8ac56d51ad187bf59aa28d24c533037a1531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 16/74] fix: handle wide and overflowing constants in scalar
 evolution

---
 jlm/llvm/opt/ScalarEvolution.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 146a7c9..0b5aa36 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -992,8 +992,10 @@ ScalarEvolution::GetOrCreateSCEVForOutput(rvsdg::Output & output)
     }
     else if (const auto constOp = dynamic_cast<const IntegerConstantOperation *>(&*simpleOperation))
     {
-      const auto value = constOp->Representation().to_int();
-      result = SCEVConstant::Create(value);
+      // Wide constants cannot be represented as SCEV constants
+      if (const auto & representation = constOp->Representation();
+          representation.is_known() && representation.nbits() <= 64)
+        result = SCEVConstant::Create(representation.to_int());
     }
     else if (rvsdg::is<IntegerBinaryOperation>(*simpleOperation))
     {
@@ -1019,7 +1021,8 @@ ScalarEvolution::GetOrCreateSCEVForOutput(rvsdg::Output & output)
       }
       else if (rvsdg::is<IntegerShlOperation>(*simpleOperation))
       {
-        if (const auto * rhsConst = dynamic_cast<SCEVConstant *>(rhsScev.get()))
+        if (const auto * rhsConst = dynamic_cast<SCEVConstant *>(rhsScev.get());
+            rhsConst && rhsConst->GetValue() >= 0 && rhsConst->GetValue() < 64)
         {
           const auto shiftAmount = rhsConst->GetValue();
           auto factor = SCEVConstant::Create(1ULL << shiftAmount);
@@ -1574,7 +1577,8 @@ ScalarEvolution::ApplyAddFolding(SCEV * lhsOperand, SCEV * rhsOperand, rvsdg::Ou
     const auto lhsValue = lhsConstant->GetValue();
     const auto rhsValue = rhsConstant->GetValue();
 
-    return SCEVConstant::Create(lhsValue + rhsValue);
+    return SCEVConstant::Create(
+        static_cast<int64_t>(static_cast<uint64_t>(lhsValue) + static_cast<uint64_t>(rhsValue)));
   }
 
   if (lhsConstant || rhsConstant)
@@ -1873,7 +1877,8 @@ ScalarEvolution::ApplyMulFolding(SCEV * lhsOperand, SCEV * rhsOperand, rvsdg::Ou
     // Two constants - fold by multiplying values together
     const auto lhsValue = lhsConstant->GetValue();
     const auto rhsValue = rhsConstant->GetValue();
-    return SCEVConstant::Create(lhsValue * rhsValue);
+    return SCEVConstant::Create(
+        static_cast<int64_t>(static_cast<uint64_t>(lhsValue) * static_cast<uint64_t>(rhsValue)));
   }
 
   if (lhsConstant || rhsConstant)
@@ -1892,7 +1897,7 @@ ScalarEvolution::GetNegativeSCEV(const SCEV & scev)
   if (const auto c = dynamic_cast<const SCEVConstant *>(&scev))
   {
     const auto value = c->GetValue();
-    return SCEVConstant::Create(-value);
+    return SCEVConstant::Create(static_cast<int64_t>(-static_cast<uint64_t>(value)));
   }
   // -(-x) -> x
   if (const auto mul = dynamic_cast<const SCEVMulExpr *>(&scev))
-- 
2.43.0


From 28764a809f4b7e9c7d77923325c8ba1845e8592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 17/74] fix: wrap integer constants created by loop strength
 reduction to their width

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index 26b4e3b..b5344f3 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -11,6 +11,7 @@
 #include <jlm/llvm/opt/ScalarEvolution.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/RvsdgModule.hpp>
+#include <jlm/util/Math.hpp>
 #include <jlm/util/Statistics.hpp>
 
 #include <algorithm>
@@ -119,6 +120,17 @@ public:
   }
 };
 
+// SCEV constants are 64-bit values, which need to be wrapped to the number of bits of the created
+// constant.
+static rvsdg::Node &
+CreateIntegerConstant(rvsdg::Region & region, const size_t numBits, const int64_t value)
+{
+  return IntegerConstantOperation::Create(
+      region,
+      numBits,
+      numBits < 64 ? util::truncateAndSignExtend(value, numBits) : value);
+}
+
 LoopStrengthReduction::LoopStrengthReduction()
     : Transformation("LoopStrengthReduction")
 {}
@@ -366,8 +378,7 @@ LoopStrengthReduction::HoistSCEVExpresssion(
   if (const auto constant = dynamic_cast<const SCEVConstant *>(&scev))
   {
     const auto value = constant->GetValue();
-    const auto & constantNode =
-        IntegerConstantOperation::Create(*thetaNode.region(), numBits, value);
+    const auto & constantNode = CreateIntegerConstant(*thetaNode.region(), numBits, value);
 
     return constantNode.output(0);
   }
@@ -546,7 +557,7 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     {
       const auto stepValue = stepConstant->GetValue();
       const auto & stepValueNode =
-          IntegerConstantOperation::Create(*thetaNode.subregion(), numBits, stepValue);
+          CreateIntegerConstant(*thetaNode.subregion(), numBits, stepValue);
       stepOutput = stepValueNode.output(0);
     }
     else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
-- 
2.43.0


From 969797266048553312ae79d471818bec37c0b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 18/74] fix: dangling pointer to new induction variable in loop
 strength reduction

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index b5344f3..c76866f 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -280,26 +280,22 @@ LoopStrengthReduction::ReplaceCandidateOperation(
 
   JLM_ASSERT(chrec->NumOperands() <= 2);
 
-  const rvsdg::ThetaNode::LoopVar * newIV = nullptr;
+  std::optional<rvsdg::ThetaNode::LoopVar> newIV;
   if (const auto & bitType = std::dynamic_pointer_cast<const rvsdg::BitType>(output.Type()))
   {
     const auto numBits = bitType->nbits();
-    const auto newIVOpt = CreateNewArithmeticInductionVariable(*chrec, thetaNode, numBits);
-    if (!newIVOpt.has_value())
+    newIV = CreateNewArithmeticInductionVariable(*chrec, thetaNode, numBits);
+    if (!newIV.has_value())
       return;
 
-    newIV = &newIVOpt.value();
-
     Context_->NumArithmeticOperationsReduced++;
   }
   else if (std::dynamic_pointer_cast<const PointerType>(output.Type()))
   {
-    const auto newIVOpt = CreateNewGEPInductionVariable(*chrec, thetaNode);
-    if (!newIVOpt.has_value())
+    newIV = CreateNewGEPInductionVariable(*chrec, thetaNode);
+    if (!newIV.has_value())
       return;
 
-    newIV = &newIVOpt.value();
-
     Context_->NumGEPOperationsReduced++;
   }
   else
@@ -307,7 +303,7 @@ LoopStrengthReduction::ReplaceCandidateOperation(
     throw std::logic_error("Invalid output type in ReplaceCandidateOperation!");
   }
 
-  JLM_ASSERT(newIV != nullptr);
+  JLM_ASSERT(newIV.has_value());
 
   output.divert_users(newIV->pre);
   // Insert the chrec for the new induction variable
-- 
2.43.0


From dd9cc11e49989d0e85aafefc3d53a129a1db4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 19/74] fix: route steps of outer loops into theta nodes in
 loop strength reduction

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index c76866f..d55f2b0 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -556,13 +556,16 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
           CreateIntegerConstant(*thetaNode.subregion(), numBits, stepValue);
       stepOutput = stepValueNode.output(0);
     }
-    else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
+    else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get());
+             stepInit && stepInit->GetPrePointer().region() == thetaNode.subregion())
     {
       stepOutput = &stepInit->GetPrePointer();
     }
-    else if (const auto stepNAryExpr = dynamic_cast<const SCEVNAryExpr *>(stepSCEV.get()))
+    else if (
+        dynamic_cast<const SCEVInit *>(stepSCEV.get())
+        || dynamic_cast<const SCEVNAryExpr *>(stepSCEV.get()))
     {
-      const auto hoistedStep = HoistSCEVExpresssion(*stepNAryExpr, thetaNode, numBits);
+      const auto hoistedStep = HoistSCEVExpresssion(*stepSCEV, thetaNode, numBits);
       if (!hoistedStep.has_value())
         return std::nullopt;
 
@@ -622,13 +625,16 @@ LoopStrengthReduction::CreateNewGEPInductionVariable(
           IntegerConstantOperation::Create(*thetaNode.subregion(), 64, stepValue);
       stepOutput = stepValueNode.output(0);
     }
-    else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
+    else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get());
+             stepInit && stepInit->GetPrePointer().region() == thetaNode.subregion())
     {
       stepOutput = &stepInit->GetPrePointer();
     }
-    else if (const auto stepNAryExpr = dynamic_cast<const SCEVNAryExpr *>(stepSCEV.get()))
+    else if (
+        dynamic_cast<const SCEVInit *>(stepSCEV.get())
+        || dynamic_cast<const SCEVNAryExpr *>(stepSCEV.get()))
     {
-      const auto hoistedStep = HoistSCEVExpresssion(*stepNAryExpr, thetaNode, 64);
+      const auto hoistedStep = HoistSCEVExpresssion(*stepSCEV, thetaNode, 64);
       if (!hoistedStep.has_value())
         return std::nullopt;
 
-- 
2.43.0


From 907fab38ef2dfe0022bb01395dfd2f61f60b5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 20/74] fix: calls in loops modify memory states in load chain
 separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 9c5c021..51881f3 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -449,6 +449,7 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
                 // either modifying or just referencing.
+                hasModRefChainLinkAboveInRegion = true;
                 traceModRefChains(*CallOperation::GetMemoryStateInput(node).origin(), summary);
                 doneTracing = true;
               },
-- 
2.43.0


From 7110b47cc65450626efbf8dd87716fa2f0e046f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 21/74] fix: keep invariant loop variables recognizable in loop
 unswitching

---
 jlm/llvm/opt/LoopUnswitching.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 33e848a..279f978 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -144,6 +144,19 @@ LoopUnswitching::SinkNodesIntoGamma(
   }
 
   pullin_top(&gammaNode);
+
+  // Use a single entry variable per origin. Every entry variable becomes a loop variable of the new
+  // theta node, and invariant loop variables are only recognizable as such if they are not mixed.
+  std::unordered_map<rvsdg::Output *, std::vector<rvsdg::Output *>> originArguments;
+  for (const auto & [input, branchArgument] : gammaNode.GetEntryVars())
+  {
+    const auto [it, inserted] = originArguments.emplace(input->origin(), branchArgument);
+    if (inserted)
+      continue;
+
+    for (size_t n = 0; n < branchArgument.size(); n++)
+      branchArgument[n]->divert_users(it->second[n]);
+  }
 }
 
 std::vector<std::vector<rvsdg::Node *>>
-- 
2.43.0


From 63704cb74e3909071bffcb2b74e7c764f624dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 22/74] fix: do not route recurrences of unrelated loops in
 loop strength reduction

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index d55f2b0..36d6e72 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -358,9 +358,11 @@ LoopStrengthReduction::HoistChrec(
     return &traced;
   }
 
-  // This is fine to do and wont throw since we know, due to the cases above and the invariance
-  // check at the start, that the region of the chrec output is guaranteed to be an ancestor of the
-  // theta region
+  // The chrec output can only be routed to the theta node if its region is an ancestor of the theta
+  // node's region, i.e., if it is not from an unrelated loop
+  if (!rvsdg::Region::isAncestor(*thetaNode.region(), *chrecOutput->region()))
+    return std::nullopt;
+
   auto & routed = rvsdg::RouteToRegion(*chrecOutput, *thetaNode.region());
   return &routed;
 }
@@ -402,6 +404,9 @@ LoopStrengthReduction::HoistSCEVExpresssion(
       return &traced;
     }
 
+    if (!rvsdg::Region::isAncestor(*thetaNode.region(), *initLoopVar.pre->region()))
+      return std::nullopt;
+
     auto & routed = rvsdg::RouteToRegion(*initLoopVar.pre, *thetaNode.region());
     return &routed;
   }
-- 
2.43.0


From 8bcf1930c74d01fb6bae0bc870cb88ef70d457d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 23/74] fix: do not hoist memmove out of loops

---
 jlm/llvm/opt/push.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 6f9fc19..eb19a0a 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <jlm/llvm/ir/operators/delta.hpp>
+#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/opt/push.hpp>
 #include <jlm/rvsdg/control.hpp>
@@ -109,6 +110,11 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (userNode != originNode)
     return false;
 
+  // The source and destination of a memmove may overlap, i.e., executing it once is not necessarily
+  // the same as executing it repeatedly.
+  if (userNode && is<MemMoveOperation>(userNode->GetOperation()))
+    return false;
+
   return true;
 }
 
-- 
2.43.0


From ebbecb919bf6a96866ac6567420dec1bdc966b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 24/74] fix: route recursion references of inlined functions
 through phi outputs

---
 jlm/llvm/opt/inlining.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index 0bbbef6..21b6e15 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -15,6 +15,7 @@
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
+#include <jlm/rvsdg/Phi.hpp>
 #include <jlm/rvsdg/theta.hpp>
 #include <jlm/rvsdg/Trace.hpp>
 #include <jlm/rvsdg/traverser.hpp>
@@ -113,8 +114,17 @@ routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode &
   std::vector<rvsdg::Output *> deps;
   for (auto & ctxvar : callee.GetContextVars())
   {
-    auto & traced = tracer.trace(*ctxvar.input->origin());
-    auto & routed = rvsdg::RouteToRegion(traced, region);
+    auto traced = &tracer.trace(*ctxvar.input->origin());
+
+    // Recursion references can not be routed out of their phi node, use the phi output instead
+    if (const auto phiNode = rvsdg::TryGetRegionParentNode<rvsdg::PhiNode>(*traced);
+        phiNode && !rvsdg::Region::isAncestor(region, *phiNode->subregion()))
+    {
+      if (const auto fixVar = phiNode->MapArgumentFixVar(*traced))
+        traced = fixVar->output;
+    }
+
+    auto & routed = rvsdg::RouteToRegion(*traced, region);
     deps.push_back(&routed);
   }
 
-- 
2.43.0


From da6c4e7cca389f739c6814d8584191c63cf1a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 25/74] fix: only eliminate overwritten stores that nothing
 else is ordered after

---
 jlm/llvm/ir/operators/Store.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index fabf118..d1966ba 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -15,6 +15,8 @@
 #include <jlm/rvsdg/simple-node.hpp>
 #include <jlm/util/HashSet.hpp>
 
+#include <algorithm>
+
 namespace jlm::llvm
 {
 
@@ -217,6 +219,15 @@ StoreNonVolatileOperation::normalizeStoreStore(
     }
   }
 
+  // Check that store1 is not ordered before any other operation than store2. Otherwise, store1 is
+  // kept alive, and nothing would enforce anymore that it is executed before store2.
+  for (auto & memoryState : StoreOperation::MemoryStateOutputs(*store1Node))
+  {
+    if (!memoryState.IsDead()
+        && std::find(operands.begin(), operands.end(), &memoryState) == operands.end())
+      return std::nullopt;
+  }
+
   // Check that store2 fully overwrites store1
   const auto & store1Type = store1Op->GetStoredType();
   const auto & store2Type = store2Op.GetStoredType();
-- 
2.43.0


From 4b389e67950684c366e4d092be0cc750b736e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 26/74] fix: do not mistake unrelated ends of memory states for
 invariant ones when hoisting nodes

---
 jlm/llvm/opt/push.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index eb19a0a..9d17905 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -104,15 +104,18 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (loopVar.pre->nusers() != 1)
     return false;
 
-  const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.pre->Users().begin());
-  const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.post->origin());
+  const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::Node>(*loopVar.pre->Users().begin());
+  const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::Node>(*loopVar.post->origin());
 
-  if (userNode != originNode)
+  // A missing node means that the state is only routed through the loop, which is handled elsewhere,
+  // or that the two ends are unrelated.
+  if (!userNode || userNode != originNode)
     return false;
 
   // The source and destination of a memmove may overlap, i.e., executing it once is not necessarily
   // the same as executing it repeatedly.
-  if (userNode && is<MemMoveOperation>(userNode->GetOperation()))
+  if (const auto simpleNode = dynamic_cast<const rvsdg::SimpleNode *>(userNode);
+      simpleNode && is<MemMoveOperation>(simpleNode->GetOperation()))
     return false;
 
   return true;
-- 
2.43.0


From aaed4ddae7d90be05a08963667997a5ac9f9d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 27/74] fix: do not treat redirected loop memory states as
 references in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 49 ++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 51881f3..57f6236 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -218,6 +218,46 @@ LoadChainSeparation::separateRefenceChainsInGamma(rvsdg::GammaNode & gammaNode)
   }
 }
 
+/**
+ * Determines whether memory state \p output only depends on memory state \p pre of the same region.
+ *
+ * @return True, if all memory state chains from \p output upwards end in \p pre, otherwise false.
+ */
+static bool
+onlyDependsOnMemoryState(const rvsdg::Output & output, const rvsdg::Output & pre)
+{
+  if (&output == &pre)
+    return true;
+
+  if (rvsdg::TryGetOwnerRegion(output))
+    return false;
+
+  if (const auto thetaNode = rvsdg::TryGetOwnerNode<rvsdg::ThetaNode>(output))
+    return onlyDependsOnMemoryState(*thetaNode->MapOutputLoopVar(output).input->origin(), pre);
+
+  if (auto [node, loadOperation] = rvsdg::TryGetSimpleNodeAndOptionalOp<LoadOperation>(output);
+      loadOperation)
+  {
+    const auto & input = LoadOperation::MapMemoryStateOutputToInput(output);
+    return onlyDependsOnMemoryState(*input.origin(), pre);
+  }
+
+  const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(output);
+  if (node
+      && (is<MemoryStateJoinOperation>(node->GetOperation())
+          || is<MemoryStateMergeOperation>(node->GetOperation())))
+  {
+    for (auto & input : node->Inputs())
+    {
+      if (!onlyDependsOnMemoryState(*input.origin(), pre))
+        return false;
+    }
+    return true;
+  }
+
+  return false;
+}
+
 void
 LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
 {
@@ -233,10 +273,15 @@ LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
     // Separate reference chains in theta subregion
     const auto hasModificationChainLinkAboveInRegion =
         separateReferenceChains(*loopVar.post->origin());
+
+    // The memory state might also have been redirected to the one of another loop variable, in which
+    // case the output of the loop variable must not be considered equivalent to its input.
+    const auto isReference =
+        !hasModificationChainLinkAboveInRegion
+        && onlyDependsOnMemoryState(*loopVar.post->origin(), *loopVar.pre);
     Context_->add(
         *loopVar.output,
-        hasModificationChainLinkAboveInRegion ? ModRefChainLink::Type::Modification
-                                              : ModRefChainLink::Type::Reference);
+        isReference ? ModRefChainLink::Type::Reference : ModRefChainLink::Type::Modification);
 
     // Handle dead theta outputs
     if (loopVar.output->IsDead())
-- 
2.43.0


From b80382c6b3bf8bd396bc2e5404e82e68f5a0065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 28/74] fix: keep users of intermediate links ordered after
 their reference chain in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 32 ++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 57f6236..0c72613 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -319,16 +319,30 @@ LoadChainSeparation::separateReferenceChains(rvsdg::Output & startOutput)
         joinOperands.push_back(linkOutput);
       }
 
-      // Create join node and divert the current memory state output
-      if (!links.front().output->IsDead())
+      // Collect the users of each link that are not part of the chain. They must remain ordered after
+      // the link as well as all the links above it in the chain.
+      std::vector<std::vector<rvsdg::Input *>> linkUsers;
+      for (auto [linkOutput, _] : links)
       {
-        auto & joinNode = MemoryStateJoinOperation::CreateNode(joinOperands);
-        links.front().output->divertUsersWhere(
-            *joinNode.output(0),
-            [&joinNode](const rvsdg::Input & user)
-            {
-              return rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(user) != &joinNode;
-            });
+        linkUsers.emplace_back();
+        for (auto & user : linkOutput->Users())
+        {
+          linkUsers.back().push_back(&user);
+        }
+      }
+
+      // Create join nodes and divert the users
+      for (size_t n = 0; n + 1 < links.size(); n++)
+      {
+        if (linkUsers[n].empty())
+          continue;
+
+        auto & joinNode = MemoryStateJoinOperation::CreateNode(
+            std::vector<rvsdg::Output *>(joinOperands.begin() + n, joinOperands.end()));
+        for (const auto user : linkUsers[n])
+        {
+          user->divert_to(joinNode.output(0));
+        }
       }
     }
   }
-- 
2.43.0


From 511bfc67c2c4d16e4567a37da47bef04458c1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 29/74] fix: correlate predicates only with gamma nodes that
 are controlled by the same match node

---
 jlm/llvm/opt/LoopUnswitching.cpp      | 2 +-
 jlm/llvm/opt/PredicateCorrelation.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 279f978..ba9537d 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -99,7 +99,7 @@ LoopUnswitching::IsUnswitchable(const rvsdg::ThetaNode & theta)
       continue;
 
     gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
-    if (!gammaNode)
+    if (!gammaNode || &user != gammaNode->predicate())
       return nullptr;
   }
 
diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index edb42ac..d8fbc7c 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -139,7 +139,8 @@ computeMatchCorrelation(rvsdg::ThetaNode & thetaNode)
 
   for (auto & user : matchNode->output(0)->Users())
   {
-    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user))
+    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
+        gammaNode && &user == gammaNode->predicate())
     {
       return ThetaGammaPredicateCorrelation::CreateMatchCorrelation(
           thetaNode,
@@ -185,7 +186,7 @@ computeMatchCorrelation(rvsdg::GammaNode & gammaNode1)
   for (auto & user : matchNode->output(0)->Users())
   {
     if (const auto gammaNode2 = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
-        gammaNode2 != &gammaNode1)
+        gammaNode2 && gammaNode2 != &gammaNode1 && &user == gammaNode2->predicate())
     {
       return GammaGammaPredicateCorrelation::CreateMatchCorrelation(
           gammaNode1,
-- 
2.43.0


From 04aa0937a6e4e5cb60b11babfce06ccb254d70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 30/74] fix: do not assign roles to gamma subregions that agree
 on leaving the loop

---
 jlm/llvm/opt/PredicateCorrelation.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index d8fbc7c..1ac5dc3 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -223,6 +223,11 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
     {
       return std::nullopt;
     }
+    if ((controlAlternatives[0] == 0) == (controlAlternatives[1] == 0))
+    {
+      // Both subregions exit the loop, or both subregions repeat it.
+      return std::nullopt;
+    }
 
     GammaSubregionRoles roles;
     if (controlAlternatives[0] == 0)
@@ -248,9 +253,16 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
-    GammaSubregionRoles roles;
     const auto matchOperation =
         util::assertedCast<const rvsdg::MatchOperation>(&matchNode->GetOperation());
+    if ((matchOperation->alternative(alternatives[0]) == 0)
+        == (matchOperation->alternative(alternatives[1]) == 0))
+    {
+      // Both subregions exit the loop, or both subregions repeat it.
+      return std::nullopt;
+    }
+
+    GammaSubregionRoles roles;
     if (matchOperation->alternative(alternatives[0]) == 0)
     {
       roles.exitSubregion = correlation.gammaNode().subregion(0);
-- 
2.43.0


From c59b9838177b9d7a6b6c8ea717b849427567d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 31/74] fix: do not hoist calls out of loops just because their
 states are invariant

---
 jlm/llvm/opt/push.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 9d17905..79b2b51 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,6 +3,7 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/call.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
 #include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
@@ -112,10 +113,12 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (!userNode || userNode != originNode)
     return false;
 
-  // The source and destination of a memmove may overlap, i.e., executing it once is not necessarily
-  // the same as executing it repeatedly.
+  // The source and destination of a memmove may overlap, and a called function might read the memory
+  // it modifies, i.e., executing them once is not necessarily the same as executing them repeatedly.
   if (const auto simpleNode = dynamic_cast<const rvsdg::SimpleNode *>(userNode);
-      simpleNode && is<MemMoveOperation>(simpleNode->GetOperation()))
+      simpleNode
+      && (is<MemMoveOperation>(simpleNode->GetOperation())
+          || is<CallOperation>(simpleNode->GetOperation())))
     return false;
 
   return true;
-- 
2.43.0


From e4952157f42118781e57004c58ede3b0a5d69579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 32/74] fix: make the copy of a phi node define its own fix
 variables

Copying a phi node diverted the results of the original to the nodes of the copy and
did not register the outputs of the copy in the substitution map.
---
 jlm/rvsdg/Phi.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jlm/rvsdg/Phi.cpp b/jlm/rvsdg/Phi.cpp
index f859aba..3e8e75c 100644
--- a/jlm/rvsdg/Phi.cpp
+++ b/jlm/rvsdg/Phi.cpp
@@ -203,20 +203,24 @@ PhiNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   }
 
   // add recursion variables
-  for (auto var : GetFixVars())
+  const auto fixVars = GetFixVars();
+  std::vector<FixVar> newFixVars;
+  for (auto var : fixVars)
   {
     auto newrv = pb.AddFixVar(var.recref->Type());
     subregionmap.insert(var.recref, newrv.recref);
+    newFixVars.push_back(newrv);
   }
 
   // copy subregion
   subregion()->copy(pb.subregion(), subregionmap);
 
   // finalize phi
-  for (auto var : GetFixVars())
+  for (size_t n = 0; n < fixVars.size(); n++)
   {
-    auto neworigin = &subregionmap.lookup(*var.result->origin());
-    var.result->divert_to(neworigin);
+    auto neworigin = &subregionmap.lookup(*fixVars[n].result->origin());
+    newFixVars[n].result->divert_to(neworigin);
+    smap.insert(fixVars[n].output, newFixVars[n].output);
   }
 
   return pb.end();
-- 
2.43.0


From 830fc69be8f74fe08916d4569c2b7ad9afe52779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 33/74] fix: copy delta nodes that have context variables or a
 value

Copying a delta node looked up the result of the unfinished copy, which has none yet.
---
 jlm/rvsdg/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/delta.cpp b/jlm/rvsdg/delta.cpp
index 4d9a9b9..bbbfe6f 100644
--- a/jlm/rvsdg/delta.cpp
+++ b/jlm/rvsdg/delta.cpp
@@ -99,8 +99,8 @@ DeltaNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   subregion()->copy(delta->subregion(), subregionmap);
 
   // finalize delta
-  auto result = &subregionmap.lookup(*delta->result().origin());
-  auto o = &delta->finalize(result);
+  auto newResultOrigin = &subregionmap.lookup(*result().origin());
+  auto o = &delta->finalize(newResultOrigin);
   smap.insert(&output(), o);
 
   return delta;
-- 
2.43.0


From 5128b277b6131b7ba4da424c386d43e47c40f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 34/74] fix: do not shift signed integers out of their range in
 truncateAndSignExtend

---
 jlm/util/Math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/util/Math.hpp b/jlm/util/Math.hpp
index df9d96f..ceb9b94 100644
--- a/jlm/util/Math.hpp
+++ b/jlm/util/Math.hpp
@@ -136,8 +136,8 @@ truncateAndSignExtend(int64_t value, uint64_t keepBits)
   JLM_ASSERT(keepBits <= 64);
   const auto extendBits = 64 - keepBits;
 
-  // Shift signed value left and right again to sign extend
-  return (value << extendBits) >> extendBits;
+  // Shift left as unsigned (a signed shift may overflow), and right as signed to sign extend
+  return static_cast<int64_t>(static_cast<uint64_t>(value) << extendBits) >> extendBits;
 }
 
 /**
-- 
2.43.0


From 50187956fb3e40ee7dc084a2a30a27c49bfee4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 35/74] fix: keep the implied alignment of global variables
 without an explicit one

The converted module gave such globals an explicit alignment of 1, while loads and stores
to them keep the alignment implied by the data layout.
---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index 2d37279..197eafd 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -2592,7 +2592,8 @@ declare_globals(::llvm::Module & lm, Context & ctx)
     auto type = ctx.GetTypeConverter().ConvertLlvmType(*gv.getValueType());
     auto linkage = convert_linkage(gv.getLinkage());
     auto section = gv.getSection().str();
-    const auto alignment = gv.getAlign().valueOrOne().value();
+    // Without an explicit alignment, accesses may rely on the alignment implied by the data layout
+    const auto alignment = gv.getPointerAlignment(gv.getParent()->getDataLayout()).value();
 
     return DataNode::Create(
         ctx.module().ipgraph(),
-- 
2.43.0


From e8c3e22407a7b717c54c842fa2c8e85574517b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 36/74] fix: compute the size of vectors of elements that are
 not byte sized

LLVM packs the elements of a vector tightly: <8 x i1> takes one byte, not eight. The size of
such vectors, and the offsets of fields behind them, disagreed with the data layout.
---
 jlm/llvm/ir/types.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index 38f7ee9..e9ea82f 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -455,8 +455,11 @@ GetTypeStoreSize(const rvsdg::Type & type)
   }
   if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
   {
-    // In LLVM, vectors always have alignment >= the number of bytes of data stored in the vector
-    const auto bytesNeeded = vectorType->size() * GetTypeAllocSize(*vectorType->Type());
+    // In LLVM, the elements of a vector are tightly packed, even if they are not byte sized
+    const auto elementBitType = std::dynamic_pointer_cast<const rvsdg::BitType>(vectorType->Type());
+    const auto elementBits =
+        elementBitType ? elementBitType->nbits() : 8 * GetTypeStoreSize(*vectorType->Type());
+    const auto bytesNeeded = (vectorType->size() * elementBits + 7) / 8;
     return bytesNeeded;
   }
   if (rvsdg::is<rvsdg::FunctionType>(type))
-- 
2.43.0


From 4c8b9e14e54699f2f6545ff3451f6e2f7bbcbb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 37/74] fix: split only allocas whose elements are addressed
 directly

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 34 ++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 22961b0..7e28267 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -115,6 +115,36 @@ AggregateAllocaSplitting::isSplitableType(const rvsdg::Type & type)
   return true;
 }
 
+/**
+ * Determines the type of the element that is addressed by \p gepNode within an alloca.
+ *
+ * @param gepNode The \ref GetElementPtrOperation node
+ * @param allocatedType The type of the alloca
+ * @return The type of the addressed element, or nullptr if the address is not statically known to be
+ * the one of an element that receives its own alloca.
+ */
+static std::shared_ptr<const rvsdg::Type>
+tryGetElementType(const rvsdg::SimpleNode & gepNode, const rvsdg::Type & allocatedType)
+{
+  const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(gepNode);
+  if (!gepConstant.has_value() || *gepConstant->pointeeType != allocatedType
+      || gepConstant->indices[0] != 0)
+    return nullptr;
+
+  std::shared_ptr<const rvsdg::Type> elementType = gepConstant->pointeeType;
+  for (size_t n = 1; n < gepConstant->indices.size(); n++)
+  {
+    const auto structType = dynamic_cast<const StructType *>(elementType.get());
+    if (!structType)
+      return nullptr;
+
+    elementType = structType->getElementType(gepConstant->indices[n]);
+  }
+
+  // Nested structs are split as well
+  return is<StructType>(*elementType) ? nullptr : elementType;
+}
+
 std::optional<AggregateAllocaSplitting::AllocaTraceInfo>
 AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 {
@@ -232,7 +262,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
                   [&](const GetElementPtrOperation &)
                   {
                     JLM_ASSERT(userNode->input(0) == &user);
-                    JLM_ASSERT(GetElementPtrOperation::tryGetAsConstant(simpleNode).has_value());
+                    if (!tryGetElementType(simpleNode, *allocaOperation->allocatedType()))
+                      return false;
+
                     allocaTraceInfo.allocaConsumers.push_back(&simpleNode);
                     return true;
                   },
-- 
2.43.0


From b0ec76575601589e46690dd20101694c16110e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 38/74] fix: do not split allocas whose address is merged with
 the one of another object

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 7e28267..2783bb2 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -265,6 +265,10 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
                     if (!tryGetElementType(simpleNode, *allocaOperation->allocatedType()))
                       return false;
 
+                    // The pointer might have been merged with the one of another object
+                    if (&llvm::traceOutput(*user.origin()) != &address)
+                      return false;
+
                     allocaTraceInfo.allocaConsumers.push_back(&simpleNode);
                     return true;
                   },
-- 
2.43.0


From 0a83eab681a37f016d69e2b2dd4f1d8b4f702ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 39/74] fix: do not split allocas that are accessed across
 elements

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 18 ++++++++++++------
 jlm/llvm/opt/AggregateAllocaSplitting.hpp |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 2783bb2..55556b5 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -297,7 +297,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 
   for (const auto allocaConsumer : allocaTraceInfo.allocaConsumers)
   {
-    if (!checkGetElementPtrUsers(*allocaConsumer))
+    const auto elementType =
+        tryGetElementType(*allocaConsumer, *allocaOperation->allocatedType());
+    if (!checkGetElementPtrUsers(*allocaConsumer, GetTypeAllocSize(*elementType)))
       return std::nullopt;
   }
 
@@ -305,7 +307,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 }
 
 bool
-AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode)
+AggregateAllocaSplitting::checkGetElementPtrUsers(
+    const rvsdg::SimpleNode & gepNode,
+    const size_t elementSize)
 {
   [[maybe_unused]] auto gepOperation =
       dynamic_cast<const GetElementPtrOperation *>(&gepNode.GetOperation());
@@ -406,16 +410,18 @@ AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepN
               auto & operation = simpleNode.GetOperation();
               return rvsdg::MatchTypeWithDefault(
                   operation,
-                  [&](const LoadOperation &)
+                  [&](const LoadOperation & loadOperation)
                   {
-                    return true;
+                    // The load might access adjacent elements as well
+                    return GetTypeStoreSize(*loadOperation.GetLoadedType()) <= elementSize;
                   },
-                  [&](const StoreOperation &)
+                  [&](const StoreOperation & storeOperation)
                   {
                     if (&user != &StoreOperation::AddressInput(simpleNode))
                       return false;
 
-                    return true;
+                    // The store might access adjacent elements as well
+                    return GetTypeStoreSize(storeOperation.GetStoredType()) <= elementSize;
                   },
                   [&](const IOBarrierOperation &)
                   {
diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.hpp b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
index 6eb409a..48328f3 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.hpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
@@ -44,7 +44,7 @@ private:
   splitAllocaNode(const AllocaTraceInfo & allocaTraceInfo);
 
   static bool
-  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode);
+  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode, size_t elementSize);
 
   static std::optional<AllocaTraceInfo>
   isSplitable(rvsdg::SimpleNode & allocaNode);
-- 
2.43.0


From c1326aa24321036375fe1b5b79103a80be513727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 40/74] fix: FCmpOperation::debug_string() knows the predicates
 true and false

---
 jlm/llvm/ir/operators/operators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/operators/operators.cpp b/jlm/llvm/ir/operators/operators.cpp
index 6aa82c4..aef465d 100644
--- a/jlm/llvm/ir/operators/operators.cpp
+++ b/jlm/llvm/ir/operators/operators.cpp
@@ -404,7 +404,9 @@ FCmpOperation::debug_string() const
                                                       { fpcmp::ult, "ult" },
                                                       { fpcmp::ule, "ule" },
                                                       { fpcmp::une, "une" },
-                                                      { fpcmp::uno, "uno" } });
+                                                      { fpcmp::uno, "uno" },
+                                                      { fpcmp::TRUE, "true" },
+                                                      { fpcmp::FALSE, "false" } });
 
   JLM_ASSERT(map.find(cmp()) != map.end());
   return "FCmp " + map[cmp()];
-- 
2.43.0


From e671217d3a70098dde17c7e6abdc1b0d41f0f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 41/74] fix: emit half instead of bfloat constant data arrays
 and vectors

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 3883f27..2d4e1eb 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -562,7 +562,7 @@ IpGraphToLlvmConverter::convert(
     if (ft->size() == fpsize::half)
     {
       auto data = get_fpdata<uint16_t>(operands);
-      auto type = ::llvm::Type::getBFloatTy(builder.getContext());
+      auto type = ::llvm::Type::getHalfTy(builder.getContext());
       return ::llvm::ConstantDataArray::getFP(type, data);
     }
     else if (ft->size() == fpsize::flt)
@@ -818,7 +818,7 @@ IpGraphToLlvmConverter::convert_constantdatavector(
     if (ft->size() == fpsize::half)
     {
       auto data = get_fpdata<uint16_t>(operands);
-      auto type = ::llvm::Type::getBFloatTy(builder.getContext());
+      auto type = ::llvm::Type::getHalfTy(builder.getContext());
       return ::llvm::ConstantDataVector::getFP(type, data);
     }
     else if (ft->size() == fpsize::flt)
-- 
2.43.0


From e53e9d8f4c12989763c25ada3ba2040b82fc8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 42/74] fix: do not inline functions with byval parameters

---
 jlm/llvm/opt/inlining.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index 21b6e15..36799c8 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -7,6 +7,7 @@
 #include <jlm/llvm/ir/operators/alloca.hpp>
 #include <jlm/llvm/ir/operators/call.hpp>
 #include <jlm/llvm/ir/operators/IOBarrier.hpp>
+#include <jlm/llvm/ir/operators/lambda.hpp>
 #include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
@@ -494,6 +495,17 @@ FunctionInlining::canBeInlined(rvsdg::Region & region, bool topLevelRegion)
 bool
 FunctionInlining::canBeInlined(const rvsdg::LambdaNode & callee)
 {
+  // A byval parameter is a copy that the callee may modify. Inlining does not make this copy.
+  const auto & operation = *util::assertedCast<LlvmLambdaOperation>(&callee.GetOperation());
+  for (std::size_t n = 0; n < callee.GetFunctionArguments().size(); n++)
+  {
+    for (auto & attribute : operation.GetArgumentAttributes(n).TypeAttributes())
+    {
+      if (attribute.kind() == Attribute::kind::ByVal)
+        return false;
+    }
+  }
+
   return canBeInlined(*callee.subregion(), true);
 }
 
-- 
2.43.0


From f464e580fd54499ba2d63c85ae39c257892d619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:16 +0000
Subject: [PATCH 43/74] hook: let a monitor pick the next node of a traversal
 (guarded by JLM_VERIF_HOOKS)

---
 jlm/rvsdg/traverser.cpp | 8 ++++++++
 jlm/rvsdg/traverser.hpp | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/jlm/rvsdg/traverser.cpp b/jlm/rvsdg/traverser.cpp
index 13c12eb..829b1fe 100644
--- a/jlm/rvsdg/traverser.cpp
+++ b/jlm/rvsdg/traverser.cpp
@@ -27,6 +27,10 @@ namespace jlm::rvsdg
 namespace detail
 {
 
+#ifdef JLM_VERIF_HOOKS
+std::size_t (*verifPickNode)(std::size_t n) = nullptr;
+#endif
+
 template<typename Traverser>
 ForwardingObserver<Traverser>::~ForwardingObserver() noexcept = default;
 
@@ -493,6 +497,10 @@ template<typename NodeType>
 NodeType *
 TraversalTracker<NodeType>::peek()
 {
+#ifdef JLM_VERIF_HOOKS
+  if (verifPickNode && frontier_.size() > 1)
+    return *std::next(frontier_.begin(), verifPickNode(frontier_.size()));
+#endif
   return frontier_.empty() ? nullptr : frontier_.front();
 }
 
diff --git a/jlm/rvsdg/traverser.hpp b/jlm/rvsdg/traverser.hpp
index 5e8ad0e..5f9940b 100644
--- a/jlm/rvsdg/traverser.hpp
+++ b/jlm/rvsdg/traverser.hpp
@@ -24,6 +24,11 @@ class Region;
 namespace detail
 {
 
+#ifdef JLM_VERIF_HOOKS
+// When set, decides which of the n nodes that are ready is visited next.
+extern std::size_t (*verifPickNode)(std::size_t n);
+#endif
+
 enum class TraversalNodeState : uint8_t
 {
   // Nodes that are not ready to be visited
-- 
2.43.0


From 10ef2e2d1e0cfa64c86aad255f1bac8ab9b74195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 44/74] fix: alias analyses may contradict each other about
 code that never executes

The chained analysis asserted that its two analyses never give NoAlias and
MustAlias for the same query. In an internal function without callers, the
points-to graph says NoAlias for everything, so that the evaluation of the
precision of the alias analysis crashed on such programs.
---
 jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp | 27 ++-----------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp b/jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp
index 2f9a487..ebbbceb 100644
--- a/jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp
+++ b/jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp
@@ -18,29 +18,6 @@ AliasAnalysis::AliasAnalysis() = default;
 
 AliasAnalysis::~AliasAnalysis() noexcept = default;
 
-/**
- * Checks if two alias query responses are compatible with each other.
- * NoAlias is incompatible with MustAlias, and vice versa.
- * MayAlias is compatible with all responses.
- *
- * @param a first alias query response to check
- * @param b second alias query response to check
- * @return true if the responses are compatible, false otherwise
- */
-static bool
-AreAliasResponsesCompatible(
-    AliasAnalysis::AliasQueryResponse a,
-    AliasAnalysis::AliasQueryResponse b)
-{
-  if (a == AliasAnalysis::NoAlias)
-    return b != AliasAnalysis::MustAlias;
-  if (a == AliasAnalysis::MayAlias)
-    return true;
-  if (a == AliasAnalysis::MustAlias)
-    return b != AliasAnalysis::NoAlias;
-  JLM_UNREACHABLE("Unknown alias response");
-}
-
 ChainedAliasAnalysis::ChainedAliasAnalysis(
     std::shared_ptr<AliasAnalysis> first,
     std::shared_ptr<AliasAnalysis> second)
@@ -61,8 +38,8 @@ ChainedAliasAnalysis::Query(
   if (firstResponse == MayAlias)
     return Second_->Query(p1, s1, p2, s2);
 
-  // When building with asserts, always query the second analysis and double check
-  JLM_ASSERT(AreAliasResponsesCompatible(firstResponse, Second_->Query(p1, s1, p2, s2)));
+  // The second analysis may give the opposite answer when the pointers belong to code that is never
+  // executed, e.g., the parameters of an internal function without callers point to nothing.
   return firstResponse;
 }
 
-- 
2.43.0


From 33978dd0fc0e33781419f8a51b18e312c7eb440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 45/74] fix: integers wider than 128 bits have the alignment of
 i128

The alignment of an integer was its size rounded up to a power of two. The data
layout of x86-64 aligns every integer wider than 64 bits to 16 bytes, so that the
offsets of the fields behind such an integer and the sizes of structs that contain
one were wrong, and the local alias analysis gave wrong answers.
---
 jlm/llvm/ir/types.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index e9ea82f..75fa683 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -487,7 +487,12 @@ GetTypeAllocSize(const rvsdg::Type & type)
 size_t
 GetTypeAlignment(const rvsdg::Type & type)
 {
-  if (jlm::rvsdg::is<rvsdg::BitType>(type) || jlm::rvsdg::is<PointerType>(type)
+  if (jlm::rvsdg::is<rvsdg::BitType>(type))
+  {
+    // Integers wider than 128 bits have the alignment of the widest integer in the data layout
+    return std::min<size_t>(util::RoundUpToPowerOf2(GetTypeStoreSize(type)), 16);
+  }
+  if (jlm::rvsdg::is<PointerType>(type)
       || jlm::rvsdg::is<FloatingPointType>(type) || jlm::rvsdg::is<VectorType>(type))
   {
     // These types all have alignment equal to their byte size, rounded up to a power of two
-- 
2.43.0


From d65189c639f56812c9b83b5f88e6253e262cdad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:25 +0000
Subject: [PATCH 46/74] fix: registers unified with a memory object that holds
 no pointers keep their points-to set

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index d12b5ee..da8d4cb 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -1748,13 +1748,6 @@ Andersen::ConstructPointsToGraphFromPointerObjectSet(
   // PointerObject's points-to set.
   auto applyPointsToSet = [&](PointsToGraph::NodeIndex ptgNode, PointerObjectIndex index)
   {
-    // PointerObjectSets that are marked as not containing pointers can be added to the
-    // PointsToGraph without any explicit or implicit pointees.
-    if (!set.CanPoint(index))
-    {
-      return;
-    }
-
     // Mark nodes that target everything that is externally available
     if (set.IsPointingToExternal(index))
     {
@@ -1790,6 +1783,12 @@ Andersen::ConstructPointsToGraphFromPointerObjectSet(
   // Now add all edges from memory node to memory node.
   for (auto [pointerObjectSetIndex, ptgNode] : memoryNodeMapping)
   {
+    // PointerObjects that are marked as not containing pointers can be added to the
+    // PointsToGraph without any explicit or implicit pointees. This must not be decided by the
+    // unification root, as it may be shared with registers that do point to something.
+    if (!set.CanPoint(pointerObjectSetIndex))
+      continue;
+
     applyPointsToSet(ptgNode, pointerObjectSetIndex);
   }
 
-- 
2.43.0


From 703b40698189c8ab7704a61e8cf90945557dcd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:03 +0000
Subject: [PATCH 47/74] fix: no recurrence is made up for loop variables of
 outer loops whose evolution is unknown

---
 jlm/llvm/opt/ScalarEvolution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 0b5aa36..2ae2010 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -820,6 +820,12 @@ ScalarEvolution::TryReplaceInitForSCEV(const SCEV & scev, rvsdg::Output & output
             thetaParent ? thetaParent
                         : util::assertedCast<rvsdg::ThetaNode>(inputOrigin.region()->node());
 
+        // The SCEV of a loop variable is only a placeholder for the variable itself. If no recurrence
+        // has been created for it, then it is not known how the variable evolves.
+        if (dynamic_cast<const SCEVPlaceholder *>(originSCEV.get())
+            && !Context_->TryGetChrecForOutput(inputOrigin))
+          return std::nullopt;
+
         const auto chrec = GetOrCreateChainRecurrence(inputOrigin, *originSCEV, *outerTheta);
 
         // Create a chain recurrence for the SCEV, with the outer theta as the loop
-- 
2.43.0


From 85db868cefb38bdbc1b869e20c0eb43cc4b1f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 48/74] fix: folding a unary bit operation creates the constant
 in the region of the operation

---
 jlm/rvsdg/bitstring/bitoperation-classes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/bitstring/bitoperation-classes.cpp b/jlm/rvsdg/bitstring/bitoperation-classes.cpp
index 1dc2639..0e46321 100644
--- a/jlm/rvsdg/bitstring/bitoperation-classes.cpp
+++ b/jlm/rvsdg/bitstring/bitoperation-classes.cpp
@@ -21,12 +21,12 @@ BitUnaryOperation::foldConstant(
   JLM_ASSERT(operands.size() == 1);
 
   const auto & tracedOperand = traceOutputIntraProcedurally(*operands[0]);
-  auto [constantNode, constantOperation] =
+  auto [_, constantOperation] =
       rvsdg::TryGetSimpleNodeAndOptionalOp<BitConstantOperation>(tracedOperand);
   if (constantOperation)
   {
     return std::vector({ &BitConstantOperation::create(
-        *constantNode->region(),
+        *operands[0]->region(),
         operation.reduce_constant(constantOperation->value())) });
   }
 
-- 
2.43.0


From 5dc190e0d38c4e42428bf10089cbef0e6d824d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:07 +0000
Subject: [PATCH 49/74] fix: a flattened binary operation may still have more
 than two operands after its normalization

---
 jlm/rvsdg/binary.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/jlm/rvsdg/binary.cpp b/jlm/rvsdg/binary.cpp
index 2f713c0..126a981 100644
--- a/jlm/rvsdg/binary.cpp
+++ b/jlm/rvsdg/binary.cpp
@@ -254,7 +254,24 @@ NormalizeFlattenedBinaryOperation(
     const FlattenedBinaryOperation & operation,
     const std::vector<rvsdg::Output *> & operands)
 {
-  return NormalizeBinaryOperation(operation.bin_operation(), operands);
+  JLM_ASSERT(!operands.empty());
+  auto & binaryOperation = operation.bin_operation();
+
+  auto newOperands = reduce_operands(binaryOperation, operands);
+  if (newOperands.size() == 1)
+    return newOperands;
+
+  if (newOperands == operands)
+    return std::nullopt;
+
+  auto region = operands[0]->region();
+  if (newOperands.size() == 2)
+    return outputs(&SimpleNode::Create(*region, binaryOperation.copy(), newOperands));
+
+  return outputs(&SimpleNode::Create(
+      *region,
+      std::make_unique<FlattenedBinaryOperation>(binaryOperation, newOperands.size()),
+      newOperands));
 }
 
 }
-- 
2.43.0


From 4baec0e381c4aa6c1074987897a9c7ecefb856b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:28 +0000
Subject: [PATCH 50/74] fix: concatenations with any number of operands can be
 flattened

---
 jlm/rvsdg/bitstring/concat.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jlm/rvsdg/bitstring/concat.cpp b/jlm/rvsdg/bitstring/concat.cpp
index b42c299..97e5cc2 100644
--- a/jlm/rvsdg/bitstring/concat.cpp
+++ b/jlm/rvsdg/bitstring/concat.cpp
@@ -167,11 +167,9 @@ FlattenBitConcatOperation(const BitConcatOperation &, const std::vector<rvsdg::O
 
   if (operands == newOperands)
   {
-    JLM_ASSERT(newOperands.size() == 2);
     return std::nullopt;
   }
 
-  JLM_ASSERT(newOperands.size() > 2);
   return outputs(&CreateOpNode<BitConcatOperation>(newOperands, GetTypesFromOperands(newOperands)));
 }
 
-- 
2.43.0


From 43113cdfb208f5b7c1a7c0d6417cca304ebc18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 51/74] fix: folding a shift survives amounts beyond 64 bits

---
 jlm/llvm/ir/operators/IntegerOperations.cpp  |  6 +++---
 jlm/rvsdg/bitstring/arithmetic.cpp           |  6 +++---
 jlm/rvsdg/bitstring/value-representation.cpp | 13 +++++++++++++
 jlm/rvsdg/bitstring/value-representation.hpp |  7 +++++++
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/ir/operators/IntegerOperations.cpp b/jlm/llvm/ir/operators/IntegerOperations.cpp
index dbcfc29..c709036 100644
--- a/jlm/llvm/ir/operators/IntegerOperations.cpp
+++ b/jlm/llvm/ir/operators/IntegerOperations.cpp
@@ -50,11 +50,11 @@ foldBinaryOperation(const IntegerValueRepresentation & r1, const IntegerValueRep
   else if constexpr (std::is_same_v<TBinOp, IntegerURemOperation>)
     return IntegerValueRepresentation(r1.umod(r2));
   else if constexpr (std::is_same_v<TBinOp, IntegerAShrOperation>)
-    return IntegerValueRepresentation(r1.ashr(r2.to_uint()));
+    return IntegerValueRepresentation(r1.ashr(r2.toShiftAmount()));
   else if constexpr (std::is_same_v<TBinOp, IntegerShlOperation>)
-    return IntegerValueRepresentation(r1.shl(r2.to_uint()));
+    return IntegerValueRepresentation(r1.shl(r2.toShiftAmount()));
   else if constexpr (std::is_same_v<TBinOp, IntegerLShrOperation>)
-    return IntegerValueRepresentation(r1.shr(r2.to_uint()));
+    return IntegerValueRepresentation(r1.shr(r2.toShiftAmount()));
   else if constexpr (std::is_same_v<TBinOp, IntegerOrOperation>)
     return IntegerValueRepresentation(r1.lor(r2));
   else if constexpr (std::is_same_v<TBinOp, IntegerAndOperation>)
diff --git a/jlm/rvsdg/bitstring/arithmetic.cpp b/jlm/rvsdg/bitstring/arithmetic.cpp
index 7efca3a..f1391e7 100644
--- a/jlm/rvsdg/bitstring/arithmetic.cpp
+++ b/jlm/rvsdg/bitstring/arithmetic.cpp
@@ -77,7 +77,7 @@ struct reduce_ashr
   BitValueRepresentation
   operator()(const BitValueRepresentation & arg1, const BitValueRepresentation & arg2) const
   {
-    return arg1.ashr(arg2.to_uint());
+    return arg1.ashr(arg2.toShiftAmount());
   }
 };
 
@@ -131,7 +131,7 @@ struct reduce_shl
   BitValueRepresentation
   operator()(const BitValueRepresentation & arg1, const BitValueRepresentation & arg2) const
   {
-    return arg1.shl(arg2.to_uint());
+    return arg1.shl(arg2.toShiftAmount());
   }
 };
 
@@ -143,7 +143,7 @@ struct reduce_shr
   BitValueRepresentation
   operator()(const BitValueRepresentation & arg1, const BitValueRepresentation & arg2) const
   {
-    return arg1.shr(arg2.to_uint());
+    return arg1.shr(arg2.toShiftAmount());
   }
 };
 
diff --git a/jlm/rvsdg/bitstring/value-representation.cpp b/jlm/rvsdg/bitstring/value-representation.cpp
index 8996b0f..ce65d13 100644
--- a/jlm/rvsdg/bitstring/value-representation.cpp
+++ b/jlm/rvsdg/bitstring/value-representation.cpp
@@ -6,6 +6,7 @@
 
 #include <jlm/rvsdg/bitstring/value-representation.hpp>
 
+#include <limits>
 #include <stdexcept>
 
 namespace jlm::rvsdg
@@ -47,6 +48,18 @@ BitValueRepresentation::to_uint() const
   return result;
 }
 
+uint64_t
+BitValueRepresentation::toShiftAmount() const
+{
+  for (size_t n = 64; n < nbits(); ++n)
+  {
+    if (data_[n] == '1')
+      return std::numeric_limits<uint64_t>::max();
+  }
+
+  return to_uint();
+}
+
 int64_t
 BitValueRepresentation::to_int() const
 {
diff --git a/jlm/rvsdg/bitstring/value-representation.hpp b/jlm/rvsdg/bitstring/value-representation.hpp
index c68a588..997342c 100644
--- a/jlm/rvsdg/bitstring/value-representation.hpp
+++ b/jlm/rvsdg/bitstring/value-representation.hpp
@@ -429,6 +429,13 @@ public:
   int64_t
   to_int() const;
 
+  /**
+   * @return The unsigned value for the use as shift amount. Values that exceed the range of uint64_t
+   * saturate, as every bit is shifted out anyway.
+   */
+  uint64_t
+  toShiftAmount() const;
+
   inline char
   ult(const BitValueRepresentation & other) const
   {
-- 
2.43.0


From b7512d38d661689abc5fcd9da3b575ca83f27bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 52/74] fix: HashSet::IsSubsetOf looks at the items of this set

---
 jlm/util/HashSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/util/HashSet.hpp b/jlm/util/HashSet.hpp
index de020cb..b317854 100644
--- a/jlm/util/HashSet.hpp
+++ b/jlm/util/HashSet.hpp
@@ -167,7 +167,7 @@ public:
       return false;
     }
 
-    for (auto & item : other.Items())
+    for (auto & item : Items())
     {
       if (!other.Contains(item))
       {
-- 
2.43.0


From 6fdf15e3198d5f4f698680987b7c3b307a205f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 53/74] fix: observers of a region are told of the predicate
 input of a new gamma node

---
 jlm/rvsdg/gamma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 41b1620..ed067a2 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -234,7 +234,7 @@ GammaNode::GammaNode(rvsdg::Output & predicate, std::unique_ptr<GammaOperation>
           this,
           &predicate,
           ControlType::Create(Operation_->nalternatives())),
-      false);
+      true);
   for (std::size_t n = 0; n < Operation_->nalternatives(); ++n)
   {
     RegionArgument::Create(*subregion(n), nullptr, Operation_->GetMatchContentType(n));
-- 
2.43.0


From de997bab787c2b1c451a81840f8f740066940877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:24 +0000
Subject: [PATCH 54/74] fix: bottom-up traversals do not visit nodes that were
 created during the traversal

---
 jlm/rvsdg/traverser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/rvsdg/traverser.cpp b/jlm/rvsdg/traverser.cpp
index 829b1fe..3088325 100644
--- a/jlm/rvsdg/traverser.cpp
+++ b/jlm/rvsdg/traverser.cpp
@@ -317,7 +317,9 @@ template<bool IsConst>
 void
 BottomUpTraverserGeneric<IsConst>::onNodeCreate(NodeType * node)
 {
-  // The new node should never be visited, so activate all its predecessors immediately
+  // The new node should never be visited, so mark it as visited and
+  // activate all its predecessors immediately
+  tracker_.checkNodeActivation(node, 0);
   markAsVisited(*node);
 }
 
-- 
2.43.0


From 2c5737f2ea3f1a9630a4f20698573ce4a4c8a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 55/74] fix: top-down traversals visit nodes that lose several
 inputs at once

---
 jlm/rvsdg/node.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/jlm/rvsdg/node.cpp b/jlm/rvsdg/node.cpp
index f58d797..a4fdf61 100644
--- a/jlm/rvsdg/node.cpp
+++ b/jlm/rvsdg/node.cpp
@@ -13,6 +13,8 @@
 #include <jlm/rvsdg/substitution.hpp>
 #include <jlm/rvsdg/theta.hpp>
 
+#include <algorithm>
+
 namespace jlm::rvsdg
 {
 
@@ -311,15 +313,13 @@ Node::RemoveInputs(const util::HashSet<size_t> & indices)
   }
 
   size_t numLiveInputs = 0;
-  size_t numRemovedInputs = 0;
+  std::vector<std::unique_ptr<NodeInput>> removedInputs;
   for (size_t n = 0; n < ninputs(); n++)
   {
     auto & input = inputs_[n];
     if (indices.Contains(input->index()))
     {
-      region()->notifyInputDestroy(input.get());
-      input.reset();
-      numRemovedInputs++;
+      removedInputs.push_back(std::move(input));
     }
     else
     {
@@ -327,10 +327,19 @@ Node::RemoveInputs(const util::HashSet<size_t> & indices)
       inputs_[numLiveInputs++] = std::move(input);
     }
   }
-  inputs_.resize(numLiveInputs);
+  const auto numRemovedInputs = removedInputs.size();
+
+  // Remove the inputs one by one from the end of the node's inputs, such that the node has the
+  // correct number of inputs whenever the region's observers are notified
+  std::move(removedInputs.rbegin(), removedInputs.rend(), inputs_.begin() + numLiveInputs);
+  while (ninputs() > numLiveInputs)
+  {
+    region()->notifyInputDestroy(inputs_.back().get());
+    inputs_.pop_back();
+  }
 
   // If we no longer have any inputs we are now a top node
-  if (numLiveInputs == 0)
+  if (numLiveInputs == 0 && numRemovedInputs != 0)
   {
     region()->onTopNodeAdded(*this);
   }
-- 
2.43.0


From 75e5d82d27ef47faeff802c9b651f3be1c4151e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 56/74] fix: make globals visible to the function that
 split_hls_function extracts

---
 jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
index 535d81d..b5bfacb 100644
--- a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
@@ -314,8 +314,9 @@ split_hls_function(llvm::LlvmRvsdgModule & rm, const std::string & function_name
         else if (auto odn = dynamic_cast<rvsdg::DeltaNode *>(orig_node))
         {
           auto op = util::assertedCast<const llvm::LlvmDeltaOperation>(&odn->GetOperation());
-          // modify name to not contain .
-          if (op->name().find('.') != std::string::npos)
+          // modify name to not contain ., and make the symbol visible to the extracted function
+          if (op->name().find('.') != std::string::npos
+              || op->linkage() != llvm::Linkage::externalLinkage)
           {
             odn = rename_delta(odn);
             op = util::assertedCast<const llvm::LlvmDeltaOperation>(&odn->GetOperation());
@@ -332,8 +333,15 @@ split_hls_function(llvm::LlvmRvsdgModule & rm, const std::string & function_name
               op->getAlignment());
           smap.insert(ln->input(i)->origin(), &graphImport);
           // add export for delta to rm
-          // TODO: check if not already exported and maybe adjust linkage?
-          rvsdg::GraphExport::Create(odn->output(), op->name());
+          const auto isExported = std::any_of(
+              odn->output().Users().begin(),
+              odn->output().Users().end(),
+              [](const rvsdg::Input & user)
+              {
+                return dynamic_cast<const rvsdg::GraphExport *>(&user) != nullptr;
+              });
+          if (!isExported)
+            rvsdg::GraphExport::Create(odn->output(), op->name());
         }
         else
         {
-- 
2.43.0


From 512d308027109fef2b6d1bac3eb4363431f24052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 57/74] fix: follow the state of a store that precedes a loop
 in MemoryStateDecoupling

---
 jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp b/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
index ee428ae..2353db1 100644
--- a/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
@@ -419,8 +419,10 @@ follow_state_edge(
       mem_ops.push_back(sn);
       JLM_ASSERT(sn->output(0)->nusers() == 1);
       state_edge = get_mem_state_user(sn->output(0));
-      // handle case of store that has one edge going off to deq
-      if (rvsdg::IsOwnerNodeOperation<llvm::MemoryStateSplitOperation>(*state_edge))
+      // handle case of store that has one edge going off to deq. Only stores in loops have such an
+      // edge, a split outside of all loops separates the states of the loop following the store.
+      if (dynamic_cast<LoopNode *>(sn->region()->node())
+          && rvsdg::IsOwnerNodeOperation<llvm::MemoryStateSplitOperation>(*state_edge))
       {
         // output 0 is the normal edge
         state_edge =
-- 
2.43.0


From a814bb563bf72a54603c45c8d76a91c087e275b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 58/74] fix: keep backedge buffers of loop variables that are
 updated with constants

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index c233ba0..1f74f7e 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -48,18 +48,24 @@ FindUserNode(rvsdg::Output * out)
   JLM_UNREACHABLE("This should not have happened!");
 }
 
+static bool
+IsConstantOrConstantFork(const rvsdg::Output & out)
+{
+  if (is_constant(rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(out)))
+  {
+    return true;
+  }
+  auto [forkNode, forkOperation] = rvsdg::TryGetSimpleNodeAndOptionalOp<ForkOperation>(out);
+  return forkOperation && forkOperation->IsConstant();
+}
+
 static void
 PlaceBuffer(rvsdg::Output * out, size_t capacity, bool passThrough)
 {
   // places or re-places a buffer on an output
   auto user = FindUserNode(out);
   // don't place buffers after constants
-  if (is_constant(rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*out)))
-  {
-    return;
-  }
-  auto [forkNode, forkOperation] = rvsdg::TryGetSimpleNodeAndOptionalOp<ForkOperation>(*out);
-  if (forkOperation && forkOperation->IsConstant())
+  if (IsConstantOrConstantFork(*out))
   {
     return;
   }
@@ -149,6 +155,11 @@ OptimizeLoop(LoopNode * loopNode)
         continue;
       }
       JLM_ASSERT(oldBufferOperation);
+      if (IsConstantOrConstantFork(*branchNode->input(1)->origin()))
+      {
+        // no buffer is placed after constants, the one on the backedge is still needed
+        continue;
+      }
       auto oldBufNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*oldBufInput);
       // place new buffers
       PlaceBuffer(
-- 
2.43.0


From 9420b5900806c3b3bb3515394f3e5da4fe46b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:30 +0000
Subject: [PATCH 59/74] fix: do not replace a memory state split of a merge by
 the operands of the merge

---
 jlm/llvm/opt/NodeReduction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/NodeReduction.cpp b/jlm/llvm/opt/NodeReduction.cpp
index 4957c95..e89af1d 100644
--- a/jlm/llvm/opt/NodeReduction.cpp
+++ b/jlm/llvm/opt/NodeReduction.cpp
@@ -245,9 +245,10 @@ static std::vector<rvsdg::NodeNormalization<MemoryStateJoinOperation>>
                                     MemoryStateJoinOperation::NormalizeDuplicateOperands });
 
 static std::vector<rvsdg::NodeNormalization<MemoryStateSplitOperation>>
+    // Every result of a split depends on all states that were merged into its operand. A split of a
+    // merge can therefore not be replaced by the operands of the merge.
     memoryStateSplitNormalizations({ MemoryStateSplitOperation::NormalizeSingleResult,
-                                     MemoryStateSplitOperation::NormalizeNestedSplits,
-                                     MemoryStateSplitOperation::NormalizeSplitMerge });
+                                     MemoryStateSplitOperation::NormalizeNestedSplits });
 
 static std::vector<rvsdg::NodeNormalization<LambdaExitMemoryStateMergeOperation>>
     lambdaExitMemoryStateMergeNormalizations(
-- 
2.43.0


From 7a23edaf2566fc580d8b703ae734ac038c8448a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:08 +0000
Subject: [PATCH 60/74] fix: keep the buffer of an invariant loop variable that
 another backedge uses

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index 11b1619..7ec0e5b 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -228,6 +228,11 @@ dead_loop(rvsdg::Node * ndmux_node)
     // no connection back up
     return false;
   }
+  if (buf_out->nusers() != 1)
+  {
+    // the value is also used by another backedge
+    return false;
+  }
   // depend on same control
   auto branch_cond_origin = branch_in_node->input(0)->origin();
   auto pred_buf_out_node =
-- 
2.43.0


From 76997bb1fcbef30c8ffe1c7731d7cd465f321e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:25 +0000
Subject: [PATCH 61/74] fix: keep the predicate buffer of loops with constant
 predicates

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index 7ec0e5b..62942af 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -454,6 +454,11 @@ RhlsDeadNodeElimination::Run(
           // TODO: fix - this scenario has only stores and should just be optimized away completely
           continue;
         }
+        if (rvsdg::is<PredicateBufferOperation>(node))
+        {
+          // the loop node still refers to its predicate buffer
+          continue;
+        }
         remove(node);
         changed = true;
       }
-- 
2.43.0


From 5cdc8fc18a7bd056fc1b53b7525dcb529002f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:52 +0000
Subject: [PATCH 62/74] fix: BufferInsertion handles loops that only depend on
 constants

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index 1f74f7e..f39afd3 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -399,6 +399,12 @@ NodeCapacity(rvsdg::SimpleNode * node, std::vector<size_t> & input_capacities)
   return std::vector<size_t>(node->noutputs(), min_capacity);
 }
 
+static void
+CalculateLoopCycleDepth(
+    LoopNode * loop,
+    std::unordered_map<rvsdg::Output *, size_t> & output_cycles,
+    bool analyze_inner_loop = false);
+
 static void
 CreateLoopFrontier(
     const LoopNode * loop,
@@ -430,6 +436,16 @@ CreateLoopFrontier(
   }
   for (auto & tn : loop->subregion()->TopNodes())
   {
+    if (auto innerLoop = dynamic_cast<LoopNode *>(&tn))
+    {
+      // a loop that only depends on constants
+      CalculateLoopCycleDepth(innerLoop, output_cycles, true);
+      for (size_t i = 0; i < innerLoop->noutputs(); ++i)
+      {
+        frontier.insert(&innerLoop->output(i)->SingleUser());
+      }
+      continue;
+    }
     JLM_ASSERT(is_constant(&tn));
     auto out = tn.output(0);
     output_cycles[out] = 0;
@@ -464,12 +480,6 @@ CreateLoopFrontier(
   }
 }
 
-static void
-CalculateLoopCycleDepth(
-    LoopNode * loop,
-    std::unordered_map<rvsdg::Output *, size_t> & output_cycles,
-    bool analyze_inner_loop = false);
-
 static void
 PushCycleFrontier(
     std::unordered_map<rvsdg::Output *, size_t> & output_cycles,
-- 
2.43.0


From 864a5f2b71e5d2e53d3b5e308d806b12d825b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 63/74] fix: do not forward values of varying addresses across
 loop iterations

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 41 +++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index c4c21e7..8357f80 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -400,6 +400,42 @@ struct ValueOrigin
   }
 };
 
+/**
+ * Checks if an \p address is guaranteed to have the same value in all iterations of a theta node.
+ * @param address the address
+ * @param thetaNode the theta node
+ * @return true if the address is loop invariant, false if it may differ between iterations.
+ */
+static bool
+isLoopInvariantAddress(rvsdg::Output & address, const rvsdg::ThetaNode & thetaNode)
+{
+  auto & tracedAddress = llvm::traceOutput(address);
+
+  const auto & thetaRegion = *thetaNode.subregion();
+  const auto & addressRegion = *tracedAddress.region();
+  if (&addressRegion != &thetaRegion && !rvsdg::Region::isAncestor(addressRegion, thetaRegion))
+    return true;
+
+  const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(tracedAddress);
+  if (!node)
+    return false;
+
+  // Nodes that neither have inputs nor state outputs are constants
+  if (node->ninputs() == 0)
+    return node->noutputs() == 1;
+
+  if (!is<GetElementPtrOperation>(node))
+    return false;
+
+  for (auto & input : node->Inputs())
+  {
+    if (!isLoopInvariantAddress(*input.origin(), thetaNode))
+      return false;
+  }
+
+  return true;
+}
+
 /**
  * Helper class holding info during tracing of the memory states going to a given load node.
  * Can trace into structural nodes, and keep track of separate value origins for separate regions.
@@ -894,6 +930,11 @@ private:
     {
       const auto loopVar = thetaNode->MapPreLoopVar(tracedOutput);
 
+      // The nodes in the theta that are reached by following the back-edge belong to a previous
+      // iteration. Alias analysis responses only apply to them if the address never changes.
+      if (!isLoopInvariantAddress(*loadedAddress, *thetaNode))
+        return ValueOrigin::createUnknown();
+
       // Trace from the theta input first.
       // When tracing from a theta input, we always set loopBackEdgeTaken=true
       auto inputLastValueOrigin = getLastValueOriginBeforeInput(*loopVar.input, true);
-- 
2.43.0


From 8cf330b73410341408371167c3357face8af2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:54 +0000
Subject: [PATCH 64/74] fix: local alias analysis must not relate pointers of
 different loop iterations

---
 .../opt/alias-analyses/LocalAliasAnalysis.cpp | 62 ++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
index 4d06444..3161f22 100644
--- a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
+++ b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
@@ -29,6 +29,56 @@ LocalAliasAnalysis::LocalAliasAnalysis() = default;
 
 LocalAliasAnalysis::~LocalAliasAnalysis() noexcept = default;
 
+/**
+ * Checks if the values of a top origin reached by two traces may stem from different iterations of
+ * a theta node that contains the top origin, in which case they can be different pointers.
+ * @param topOrigin the top origin that was reached by both traces
+ * @param traces1 the trace collection of the first pointer
+ * @param traces2 the trace collection of the second pointer
+ * @return true if the values may stem from different iterations, otherwise false.
+ */
+static bool
+mayOriginateFromDifferentIterations(
+    const rvsdg::Output & topOrigin,
+    const TraceCollection & traces1,
+    const TraceCollection & traces2)
+{
+  const auto followsBackEdge = [](const TraceCollection & traces, const rvsdg::ThetaNode & theta)
+  {
+    for (auto [output, offset] : traces.AllTracedOutputs)
+    {
+      if (rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(*output) == &theta)
+        return true;
+    }
+    return false;
+  };
+
+  const auto entersFromOutput = [](const TraceCollection & traces, const rvsdg::ThetaNode & theta)
+  {
+    for (auto [output, offset] : traces.AllTracedOutputs)
+    {
+      if (rvsdg::TryGetOwnerNode<rvsdg::ThetaNode>(*output) == &theta)
+        return true;
+    }
+    return false;
+  };
+
+  for (auto region = topOrigin.region(); region->node(); region = region->node()->region())
+  {
+    const auto theta = dynamic_cast<const rvsdg::ThetaNode *>(region->node());
+    if (!theta)
+      continue;
+
+    if (followsBackEdge(traces1, *theta) || followsBackEdge(traces2, *theta))
+      return true;
+
+    if (entersFromOutput(traces1, *theta) != entersFromOutput(traces2, *theta))
+      return true;
+  }
+
+  return false;
+}
+
 std::string
 LocalAliasAnalysis::ToString() const
 {
@@ -108,7 +158,17 @@ LocalAliasAnalysis::Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Outp
     const auto & [p1Base, p1Offset] = *p1TraceCollection.TopOrigins.begin();
     const auto & [p2Base, p2Offset] = *p2TraceCollection.TopOrigins.begin();
     if (p1Base == p2Base)
-      return QueryOffsets(p1Offset, s1, p2Offset, s2);
+    {
+      const auto response = QueryOffsets(p1Offset, s1, p2Offset, s2);
+      if (!mayOriginateFromDifferentIterations(*p1Base, p1TraceCollection, p2TraceCollection))
+        return response;
+
+      // Different iterations provide different pointers, but never to overlapping originals
+      if (response == NoAlias && IsOriginalOrigin(*p1Base))
+        return NoAlias;
+
+      return MayAlias;
+    }
   }
 
   // From this point on we give up on MustAlias
-- 
2.43.0


From bbdee774bb9289f7bdaafa810bede08389ba4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 65/74] fix: do not hoist allocas out of loops

---
 jlm/llvm/opt/push.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 79b2b51..d43d7f7 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,6 +3,7 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/alloca.hpp>
 #include <jlm/llvm/ir/operators/call.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
 #include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
@@ -209,6 +210,16 @@ NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
     return context_->getLambdaSubregion();
   }
 
+  // Every iteration of a loop allocates its own memory
+  if (is<AllocaOperation>(&node))
+  {
+    for (auto region = node.region(); region->node(); region = region->node()->region())
+    {
+      if (dynamic_cast<const rvsdg::ThetaNode *>(region->node()))
+        return *node.region();
+    }
+  }
+
   // Compute target regions for all the inputs of the node
   rvsdg::Region * greatestCommonTargetRegion = nullptr;
 
-- 
2.43.0


From c09724ce0a776657797b5506465a46346a3fe482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:02 +0000
Subject: [PATCH 66/74] fix: do not hoist allocas of variable size out of
 conditionals

---
 jlm/llvm/opt/push.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index d43d7f7..05f1e37 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -8,6 +8,7 @@
 #include <jlm/llvm/ir/operators/delta.hpp>
 #include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
+#include <jlm/llvm/ir/Trace.hpp>
 #include <jlm/llvm/opt/push.hpp>
 #include <jlm/rvsdg/control.hpp>
 #include <jlm/rvsdg/gamma.hpp>
@@ -210,9 +211,13 @@ NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
     return context_->getLambdaSubregion();
   }
 
-  // Every iteration of a loop allocates its own memory
   if (is<AllocaOperation>(&node))
   {
+    // The size might only be sane under the condition that guards the alloca
+    if (!tryGetConstantSignedInteger(*node.input(0)->origin()).has_value())
+      return *node.region();
+
+    // Every iteration of a loop allocates its own memory
     for (auto region = node.region(); region->node(); region = region->node()->region())
     {
       if (dynamic_cast<const rvsdg::ThetaNode *>(region->node()))
-- 
2.43.0


From 66316e278b609be08d040ad1c4d90285a332a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:28 +0000
Subject: [PATCH 67/74] fix: run the commands of the command graph in
 topological order

---
 jlm/tooling/CommandGraph.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jlm/tooling/CommandGraph.cpp b/jlm/tooling/CommandGraph.cpp
index a531348..472da7b 100644
--- a/jlm/tooling/CommandGraph.cpp
+++ b/jlm/tooling/CommandGraph.cpp
@@ -7,6 +7,7 @@
 
 #include <deque>
 #include <functional>
+#include <unordered_map>
 
 namespace jlm::tooling
 {
@@ -56,23 +57,22 @@ CommandGraph::CommandGraph()
 std::vector<CommandGraph::Node *>
 CommandGraph::SortNodesTopological(const CommandGraph & commandGraph)
 {
-  std::vector<CommandGraph::Node *> nodes({ &commandGraph.GetEntryNode() });
+  std::vector<CommandGraph::Node *> nodes;
   std::deque<CommandGraph::Node *> to_visit({ &commandGraph.GetEntryNode() });
-  std::unordered_set<CommandGraph::Node *> visited({ &commandGraph.GetEntryNode() });
+  std::unordered_map<CommandGraph::Node *, size_t> numVisitedIncomingEdges;
 
   while (!to_visit.empty())
   {
     auto node = to_visit.front();
     to_visit.pop_front();
+    nodes.push_back(node);
 
+    // A node is ready once all the nodes it depends on have been added
     for (auto & edge : node->OutgoingEdges())
     {
-      if (visited.find(&edge.GetSink()) == visited.end())
-      {
-        to_visit.push_back(&edge.GetSink());
-        visited.insert(&edge.GetSink());
-        nodes.push_back(&edge.GetSink());
-      }
+      auto & sink = edge.GetSink();
+      if (++numVisitedIncomingEdges[&sink] == sink.NumIncomingEdges())
+        to_visit.push_back(&sink);
     }
   }
 
-- 
2.43.0


From a577f04b422b2cbb14298382103e2ab5637b13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:28 +0000
Subject: [PATCH 68/74] fix: jlc treated the language standard c90 as c99

---
 jlm/tooling/CommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index df3821a..c6421a7 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -558,7 +558,7 @@ JlcCommandLineParser::ParseCommandLineArguments(int argc, const char * const * a
       languageStandardMap({ { "gnu89", JlcCommandLineOptions::LanguageStandard::Gnu89 },
                             { "gnu99", JlcCommandLineOptions::LanguageStandard::Gnu99 },
                             { "c89", JlcCommandLineOptions::LanguageStandard::C89 },
-                            { "c90", JlcCommandLineOptions::LanguageStandard::C99 },
+                            { "c90", JlcCommandLineOptions::LanguageStandard::C89 },
                             { "c99", JlcCommandLineOptions::LanguageStandard::C99 },
                             { "c11", JlcCommandLineOptions::LanguageStandard::C11 },
                             { "c++98", JlcCommandLineOptions::LanguageStandard::Cpp98 },
-- 
2.43.0


From ce78bbfefd4319923240f562e7631e6d791f46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:04 +0000
Subject: [PATCH 69/74] fix: jlc gave files whose names only differ after the
 first dot the same object file

---
 jlm/tooling/CommandLine.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jlm/tooling/CommandLine.hpp b/jlm/tooling/CommandLine.hpp
index 7586932..f5a5d50 100644
--- a/jlm/tooling/CommandLine.hpp
+++ b/jlm/tooling/CommandLine.hpp
@@ -622,16 +622,28 @@ private:
     return file.suffix() == "o";
   }
 
+  /**
+   * The name of a file without its (last) suffix, i.e., the files "a.x.c" and "a.y.c" have different
+   * stems.
+   */
+  static std::string
+  ToStem(const util::FilePath & file)
+  {
+    const auto name = file.name();
+    const auto position = name.find_last_of('.');
+    return position == 0 ? name : name.substr(0, position);
+  }
+
   static util::FilePath
   ToObjectFile(const util::FilePath & file)
   {
-    return file.Dirname().Join(file.base() + ".o");
+    return file.Dirname().Join(ToStem(file) + ".o");
   }
 
   static util::FilePath
   ToDependencyFile(const util::FilePath & file)
   {
-    return file.Dirname().Join(file.base() + ".d");
+    return file.Dirname().Join(ToStem(file) + ".d");
   }
 
   JlcCommandLineOptions CommandLineOptions_;
-- 
2.43.0


From f7028d493beead1e4d39dcee6db99f1b1f0e8faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:32 +0000
Subject: [PATCH 70/74] fix: quote the arguments of the commands that are
 passed to the shell

---
 jlm/tooling/Command.cpp | 70 ++++++++++++++++++++++++++---------------
 jlm/tooling/Command.hpp |  3 --
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/jlm/tooling/Command.cpp b/jlm/tooling/Command.cpp
index 4b10f07..fcd4fcd 100644
--- a/jlm/tooling/Command.cpp
+++ b/jlm/tooling/Command.cpp
@@ -50,6 +50,9 @@
 
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <cctype>
+#include <cstring>
 #include <fstream>
 #include <unordered_map>
 
@@ -101,36 +104,63 @@ PrintCommandsCommand::Create(std::unique_ptr<CommandGraph> commandGraph)
 
 ClangCommand::~ClangCommand() = default;
 
+/**
+ * Quotes an \p argument such that the shell passes it on unchanged. Arguments without any special
+ * characters are left as they are.
+ */
+static std::string
+QuoteArgument(const std::string & argument)
+{
+  const auto isSpecial = [](const unsigned char c)
+  {
+    return !std::isalnum(c) && !std::strchr("_-+=:,./@%", c);
+  };
+
+  if (!argument.empty() && std::none_of(argument.begin(), argument.end(), isSpecial))
+    return argument;
+
+  std::string quotedArgument = "'";
+  for (const auto c : argument)
+  {
+    if (c == '\'')
+      quotedArgument += "'\\''";
+    else
+      quotedArgument += c;
+  }
+
+  return quotedArgument + "'";
+}
+
 std::string
 ClangCommand::ToString() const
 {
   std::string inputFiles;
   for (auto & inputFile : InputFiles_)
-    inputFiles += inputFile.to_str() + " ";
+    inputFiles += QuoteArgument(inputFile.to_str()) + " ";
 
   std::string libraryPaths;
   for (auto & libraryPath : LibraryPaths_)
-    libraryPaths += "-L" + libraryPath + " ";
+    libraryPaths += QuoteArgument("-L" + libraryPath) + " ";
 
   std::string libraries;
   for (const auto & library : Libraries_)
-    libraries += "-l" + library + " ";
+    libraries += QuoteArgument("-l" + library) + " ";
 
   std::string includePaths;
   for (auto & includePath : IncludePaths_)
-    includePaths += "-I" + includePath + " ";
+    includePaths += QuoteArgument("-I" + includePath) + " ";
 
   std::string macroDefinitions;
   for (auto & macroDefinition : MacroDefinitions_)
-    macroDefinitions += "-D" + macroDefinition + " ";
+    macroDefinitions += QuoteArgument("-D" + macroDefinition) + " ";
 
   std::string warnings;
   for (auto & warning : Warnings_)
-    warnings += "-W" + warning + " ";
+    warnings += QuoteArgument("-W" + warning) + " ";
 
   std::string flags;
   for (auto & flag : Flags_)
-    flags += "-f" + flag + " ";
+    flags += QuoteArgument("-f" + flag) + " ";
 
   std::string arguments;
   if (UsePthreads_)
@@ -148,8 +178,8 @@ ClangCommand::ToString() const
   if (Md_)
   {
     arguments += "-MD ";
-    arguments += "-MF " + DependencyFile_.to_str() + " ";
-    arguments += "-MT " + Mt_ + " ";
+    arguments += "-MF " + QuoteArgument(DependencyFile_.to_str()) + " ";
+    arguments += "-MT " + QuoteArgument(Mt_) + " ";
   }
 
   std::string languageStandardArgument = LanguageStandard_ != LanguageStandard::Unspecified
@@ -174,7 +204,7 @@ ClangCommand::ToString() const
         arguments,
         inputFiles,
         "-o ",
-        OutputFile_.to_str(),
+        QuoteArgument(OutputFile_.to_str()),
         " ",
         libraryPaths,
         libraries);
@@ -190,14 +220,14 @@ ClangCommand::ToString() const
         flags,
         " ",
         languageStandardArgument,
-        ReplaceAll(macroDefinitions, std::string("\""), std::string("\\\"")),
+        macroDefinitions,
         " ",
         includePaths,
         " ",
         "-S -emit-llvm ",
         clangArguments,
         "-o ",
-        OutputFile_.to_str(),
+        QuoteArgument(OutputFile_.to_str()),
         " ",
         inputFiles);
   }
@@ -233,18 +263,6 @@ ClangCommand::ToString(const ClangArgument & clangArgument)
   return map[clangArgument];
 }
 
-std::string
-ClangCommand::ReplaceAll(std::string str, const std::string & from, const std::string & to)
-{
-  size_t start_pos = 0;
-  while ((start_pos = str.find(from, start_pos)) != std::string::npos)
-  {
-    str.replace(start_pos, from.length(), to);
-    start_pos += to.length();
-  }
-  return str;
-}
-
 LlcCommand::~LlcCommand() = default;
 
 std::string
@@ -260,9 +278,9 @@ LlcCommand::ToString() const
       " ",
       "-filetype=obj ",
       "-o ",
-      OutputFile_.to_str(),
+      QuoteArgument(OutputFile_.to_str()),
       " ",
-      InputFile_.to_str());
+      QuoteArgument(InputFile_.to_str()));
 }
 
 std::string
diff --git a/jlm/tooling/Command.hpp b/jlm/tooling/Command.hpp
index 66ef759..4eaa346 100644
--- a/jlm/tooling/Command.hpp
+++ b/jlm/tooling/Command.hpp
@@ -236,9 +236,6 @@ private:
   static std::string
   ToString(const ClangArgument & clangArgument);
 
-  static std::string
-  ReplaceAll(std::string str, const std::string & from, const std::string & to);
-
   std::vector<util::FilePath> InputFiles_;
   util::FilePath OutputFile_;
   util::FilePath DependencyFile_;
-- 
2.43.0


From 5d9d20324b0825e6b1365d7431c027c293e43896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:48 +0000
Subject: [PATCH 71/74] fix: jlm-opt succeeded even if it could not write its
 output

---
 jlm/tooling/Command.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/jlm/tooling/Command.cpp b/jlm/tooling/Command.cpp
index fcd4fcd..ac9fd38 100644
--- a/jlm/tooling/Command.cpp
+++ b/jlm/tooling/Command.cpp
@@ -534,6 +534,16 @@ JlmOptCommand::ParseInputFile(
   }
 }
 
+/**
+ * Throws an error if writing to the \p stream of an \p outputFile failed.
+ */
+static void
+CheckOutputStream(const std::ostream & stream, const util::FilePath & outputFile)
+{
+  if (!stream)
+    throw util::Error("Failed to write output: " + outputFile.to_str());
+}
+
 void
 JlmOptCommand::PrintAsAscii(
     const llvm::LlvmRvsdgModule & rvsdgModule,
@@ -551,6 +561,7 @@ JlmOptCommand::PrintAsAscii(
     std::ofstream fileStream(outputFile.to_str());
     fileStream << ascii;
     fileStream.close();
+    CheckOutputStream(fileStream, outputFile);
   }
 }
 
@@ -614,6 +625,7 @@ JlmOptCommand::PrintAsRvsdgTree(
     fs.open(outputFile.to_str());
     fs << tree;
     fs.close();
+    CheckOutputStream(fs, outputFile);
   }
 }
 
@@ -640,6 +652,7 @@ JlmOptCommand::PrintAsGraphs(
     fs.open(outputFile.to_str());
     writer.outputAllGraphs(fs, format);
     fs.close();
+    CheckOutputStream(fs, outputFile);
   }
 }
 
@@ -662,6 +675,7 @@ JlmOptCommand::printAsRvsdgJsonTree(
     fs.open(outputFile.to_str());
     fs << json;
     fs.close();
+    CheckOutputStream(fs, outputFile);
   }
 }
 
@@ -704,6 +718,9 @@ JlmOptCommand::PrintRvsdgModule(
   {
     JLM_UNREACHABLE("Unhandled output format.");
   }
+
+  std::cout.flush();
+  CheckOutputStream(std::cout, util::FilePath("standard output"));
 }
 
 MkdirCommand::~MkdirCommand() noexcept = default;
-- 
2.43.0


From ce2b0286d14bc9f1dfbf94a5766a4d494609054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:19 +0000
Subject: [PATCH 72/74] fix: jlc did not pass -rdynamic to the linker

---
 jlm/tooling/Command.hpp               | 10 ++++++----
 jlm/tooling/CommandGraphGenerator.cpp |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/jlm/tooling/Command.hpp b/jlm/tooling/Command.hpp
index 4eaa346..33ce34d 100644
--- a/jlm/tooling/Command.hpp
+++ b/jlm/tooling/Command.hpp
@@ -113,7 +113,8 @@ public:
       util::FilePath outputFile,
       std::vector<std::string> libraryPaths,
       std::vector<std::string> libraries,
-      bool usePthreads)
+      bool usePthreads,
+      bool rdynamic)
       : InputFiles_(std::move(inputFiles)),
         OutputFile_(std::move(outputFile)),
         DependencyFile_(""),
@@ -121,7 +122,7 @@ public:
         LibraryPaths_(std::move(libraryPaths)),
         UsePthreads_(usePthreads),
         Verbose_(false),
-        Rdynamic_(false),
+        Rdynamic_(rdynamic),
         Suppress_(false),
         Md_(false),
         LanguageStandard_(LanguageStandard::Unspecified),
@@ -184,10 +185,11 @@ public:
       const util::FilePath & outputFile,
       const std::vector<std::string> & libraryPaths,
       const std::vector<std::string> & libraries,
-      bool usePthreads)
+      bool usePthreads,
+      bool rdynamic)
   {
     std::unique_ptr<ClangCommand> command(
-        new ClangCommand(inputFiles, outputFile, libraryPaths, libraries, usePthreads));
+        new ClangCommand(inputFiles, outputFile, libraryPaths, libraries, usePthreads, rdynamic));
     return CommandGraph::Node::Create(commandGraph, std::move(command));
   }
 
diff --git a/jlm/tooling/CommandGraphGenerator.cpp b/jlm/tooling/CommandGraphGenerator.cpp
index 75b6341..1891062 100644
--- a/jlm/tooling/CommandGraphGenerator.cpp
+++ b/jlm/tooling/CommandGraphGenerator.cpp
@@ -181,7 +181,8 @@ JlcCommandGraphGenerator::GenerateCommandGraph(const JlcCommandLineOptions & com
         commandLineOptions.OutputFile_,
         commandLineOptions.LibraryPaths_,
         commandLineOptions.Libraries_,
-        commandLineOptions.UsePthreads_);
+        commandLineOptions.UsePthreads_,
+        commandLineOptions.Rdynamic_);
 
     for (const auto & leafNode : leafNodes)
       leafNode->AddEdge(linkerCommandNode);
-- 
2.43.0


From 34c28cd2ea3d80614ace96bbfc67a76b1fc381cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:17 +0000
Subject: [PATCH 73/74] fix: quote the file names of the jlm-opt commands that
 jlc prints

---
 jlm/tooling/Command.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jlm/tooling/Command.cpp b/jlm/tooling/Command.cpp
index ac9fd38..35bcac1 100644
--- a/jlm/tooling/Command.cpp
+++ b/jlm/tooling/Command.cpp
@@ -336,7 +336,7 @@ JlmOptCommand::ToString() const
                             + " ";
 
   auto outputFileArgument = !CommandLineOptions_.GetOutputFile().to_str().empty()
-                              ? "-o " + CommandLineOptions_.GetOutputFile().to_str() + " "
+                              ? "-o " + QuoteArgument(CommandLineOptions_.GetOutputFile().to_str()) + " "
                               : "";
 
   std::string statisticsArguments;
@@ -349,7 +349,9 @@ JlmOptCommand::ToString() const
   }
 
   std::string statisticsDirArgument =
-      "-s " + CommandLineOptions_.GetStatisticsCollectorSettings().GetOutputDirectory().to_str()
+      "-s "
+      + QuoteArgument(
+          CommandLineOptions_.GetStatisticsCollectorSettings().GetOutputDirectory().to_str())
       + " ";
 
   return util::strfmt(
@@ -361,7 +363,7 @@ JlmOptCommand::ToString() const
       statisticsDirArgument,
       statisticsArguments,
       outputFileArgument,
-      CommandLineOptions_.GetInputFile().to_str());
+      QuoteArgument(CommandLineOptions_.GetInputFile().to_str()));
 }
 
 void
-- 
2.43.0


From 49f0d6671344c2a3edd3af0197f57185eb91cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:54 +0000
Subject: [PATCH 74/74] fix: jlc aborted if one of its commands failed

---
 tools/jlc/jlc.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/jlc/jlc.cpp b/tools/jlc/jlc.cpp
index b60b37a..ee60188 100644
--- a/tools/jlc/jlc.cpp
+++ b/tools/jlc/jlc.cpp
@@ -23,8 +23,16 @@ main(int argc, char ** argv)
     exit(EXIT_FAILURE);
   }
 
-  auto commandGraph = JlcCommandGraphGenerator::Generate(*commandLineOptions);
-  commandGraph->Run();
+  try
+  {
+    auto commandGraph = JlcCommandGraphGenerator::Generate(*commandLineOptions);
+    commandGraph->Run();
+  }
+  catch (const jlm::util::Error & e)
+  {
+    std::cerr << e.what() << std::endl;
+    exit(EXIT_FAILURE);
+  }
 
   return 0;
 }
-- 
2.43.0

