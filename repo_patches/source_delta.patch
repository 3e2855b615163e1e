From 8f28425aecfe0a2b66a042bda6d1ffa7ba7b31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 01/37] fix: compare all constants of array operands in
 hasIdenticalBehavior

---
 gegelatilib/src/program/program.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..8aae69c 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -262,17 +262,24 @@ bool Program::Program::hasIdenticalBehavior(const Program& other) const
                      operandIdx < instruction.getNbOperands(); operandIdx++) {
                     // Is the operand from the Constant data source.
                     if (thisLine.getOperand(operandIdx).first == 1) {
-                        // Check equality of constants
-                        Data::Constant thisCste =
-                            this->getConstantAt(this->constants.scaleLocation(
-                                thisLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        Data::Constant otherCste =
-                            other.getConstantAt(other.constants.scaleLocation(
-                                otherLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        if (thisCste != otherCste) {
-                            return false;
+                        // Check equality of all constants accessed by the
+                        // operand (operands may be arrays of constants).
+                        const std::type_info& instructionType =
+                            instruction.getOperandTypes().at(operandIdx);
+                        const std::type_info& operandType =
+                            this->constants.canHandle(instructionType)
+                                ? instructionType
+                                : typeid(Data::Constant);
+                        uint64_t location = this->constants.scaleLocation(
+                            thisLine.getOperand(operandIdx).second,
+                            operandType);
+                        for (size_t address :
+                             this->constants.getAddressesAccessed(operandType,
+                                                                  location)) {
+                            if (this->getConstantAt(address) !=
+                                other.getConstantAt(address)) {
+                                return false;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From c881be8b91c10bf7df01bd4f358d9eddc77a3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 02/37] fix: throw when evaluating a team without outgoing edge

---
 gegelatilib/src/tpg/tpgExecutionEngine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/tpg/tpgExecutionEngine.cpp b/gegelatilib/src/tpg/tpgExecutionEngine.cpp
index 669ab1a..c6cb4b0 100644
--- a/gegelatilib/src/tpg/tpgExecutionEngine.cpp
+++ b/gegelatilib/src/tpg/tpgExecutionEngine.cpp
@@ -36,6 +36,7 @@
 
 #include <algorithm>
 #include <set>
+#include <stdexcept>
 #include <vector>
 
 #include "program/programExecutionEngine.h"
@@ -77,6 +78,11 @@ const TPG::TPGEdge& TPG::TPGExecutionEngine::evaluateTeam(const TPGTeam& team)
     // Copy outgoing edge list
     const std::list<TPG::TPGEdge*>& outgoingEdges = team.getOutgoingEdges();
 
+    if (outgoingEdges.empty()) {
+        throw std::runtime_error(
+            "Attempting to evaluate a TPGTeam with no outgoing edge.");
+    }
+
     // Note: No need to exclude previously visited edges as the graph is now
     // assumed to be acyclic.
 
-- 
2.43.0


From 6f6be61c71a0578f6ef1d92c84f929449227ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 03/37] fix: keep the factory of a moved TPGGraph

---
 gegelatilib/include/tpg/tpgGraph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/tpg/tpgGraph.h b/gegelatilib/include/tpg/tpgGraph.h
index a1dfd1a..f36bf6f 100644
--- a/gegelatilib/include/tpg/tpgGraph.h
+++ b/gegelatilib/include/tpg/tpgGraph.h
@@ -73,7 +73,8 @@ namespace TPG {
          *
          * \param[in] model the TPGGraph to copy
          */
-        TPGGraph(TPGGraph&& model) noexcept : env{model.getEnvironment()}
+        TPGGraph(TPGGraph&& model) noexcept
+            : env{model.getEnvironment()}, factory{nullptr}
         {
             swap(*this, model);
         }
@@ -88,6 +89,7 @@ namespace TPG {
             using std::swap;
             swap(a.vertices, b.vertices);
             swap(a.edges, b.edges);
+            swap(a.factory, b.factory);
         }
 
         /**
@@ -306,7 +308,7 @@ namespace TPG {
         const Environment& env;
 
         /// TPGFactory of the TPGGraph
-        const std::unique_ptr<TPGFactory> factory;
+        std::unique_ptr<TPGFactory> factory;
 
         /**
          * \brief Set of TPGVertex composing the TPGGraph.
-- 
2.43.0


From 79886512d8e2338fb40de3a644391adf06523002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 04/37] fix: leave the graph untouched when an edge source is
 refused

---
 gegelatilib/src/tpg/tpgGraph.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..f734434 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -286,15 +286,18 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
     auto iterNewSrc = findVertex(&newSrc);
     auto iterEdge = findEdge(&edge);
     if (iterNewSrc != this->vertices.end() && iterEdge != this->edges.end()) {
-        // Unregister the edge from the old source
+        // Get the old source of the edge
         const TPG::TPGVertex* oldSrc = iterEdge->get()->getSource();
         auto iterOldSrc = findVertex(oldSrc);
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
-        (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
-        // Register the edge to the new source
-        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+        // Register the edge to the new source first, as this throws (leaving
+        // the graph untouched) if the new source is an action.
+        if (iterNewSrc != iterOldSrc) {
+            (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+        }
         // Set the destination
         iterEdge->get()->setSource(*(iterNewSrc));
         return true;
-- 
2.43.0


From 8d589c66620a9f77416323ec5423f71fc6221f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 05/37] fix: invalidate the cached hash of assigned
 PrimitiveTypeArrays

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..ef697e5 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..b9a09b5 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From f8a6fc0d8ddc990c5c698f3c2f45c8150872d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 06/37] fix: throw when scaling a location for an unsupported
 type

---
 gegelatilib/src/data/dataHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..ce2ecae 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -36,6 +36,7 @@
  */
 
 #include <algorithm>
+#include <stdexcept>
 
 #include "data/dataHandler.h"
 
@@ -61,5 +62,10 @@ size_t Data::DataHandler::getHash() const
 uint64_t Data::DataHandler::scaleLocation(const uint64_t rawLocation,
                                           const std::type_info& type) const
 {
-    return rawLocation % this->getAddressSpace(type);
+    const size_t addressSpace = this->getAddressSpace(type);
+    if (addressSpace == 0) {
+        throw std::domain_error(
+            "Data type is not supported by the DataHandler.");
+    }
+    return rawLocation % addressSpace;
 }
-- 
2.43.0


From 4ad8a8b86004d0d955002ba0173b3cddef6ca780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 07/37] fix: use the width of 2D sources when printing 1D
 operands

---
 gegelatilib/src/data/dataHandlerPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandlerPrinter.cpp b/gegelatilib/src/data/dataHandlerPrinter.cpp
index 53022f7..20a4b53 100644
--- a/gegelatilib/src/data/dataHandlerPrinter.cpp
+++ b/gegelatilib/src/data/dataHandlerPrinter.cpp
@@ -74,7 +74,7 @@ std::string Data::DataHandlerPrinter::printDataAt(
             }
             else {
 
-                size_t width = dataSizes.at(0);
+                size_t width = dataSizes.at(1);
                 size_t arrayWidth = opDimension.at(0);
 
                 size_t addressH = address / (width - arrayWidth + 1);
-- 
2.43.0


From 7e9f5f4ae47ead1d1fcc9732f140efad7b41bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 08/37] fix: throw when accessing a null Array2DWrapper

---
 gegelatilib/include/data/array2DWrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..86666b7 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -285,6 +285,9 @@ namespace Data {
     UntypedSharedPtr Array2DWrapper<T>::getDataAt(const std::type_info& type,
                                                   const size_t address) const
     {
+        if (this->containerPtr == nullptr) {
+            throw std::runtime_error("Null pointer access.");
+        }
 #ifndef NDEBUG
         // Throw exception in case of invalid arguments.
         ArrayWrapper<T>::checkAddressAndType(type, address);
-- 
2.43.0


From 6587e8b3e969afd66d8742107d26d9d59822a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 09/37] fix: recognise equal infinite results in the archive

---
 gegelatilib/src/archive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 03448ee..deeef8a 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -173,7 +173,9 @@ bool Archive::areProgramResultsUnique(
             auto iter = hashesAndResults.find(recording.dataHash);
             if (iter != hashesAndResults.end()) {
                 // Cases 2 & 3
-                if (std::abs(iter->second - recording.result) <= tau) {
+                // (infinite results are equal only if they are the same infinity)
+                if (iter->second == recording.result ||
+                    std::abs(iter->second - recording.result) <= tau) {
                     // results are equivalent
                     isIdentical = true;
                 }
-- 
2.43.0


From 37fc74380029b97b0da8e645126ca710bccee28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 10/37] fix: hash data so that changes of several elements do
 not cancel each other

---
 gegelatilib/include/data/arrayWrapper.h   | 4 +---
 gegelatilib/include/data/hash.h           | 9 +++++++++
 gegelatilib/include/data/pointerWrapper.h | 7 ++-----
 gegelatilib/src/archive.cpp               | 3 ++-
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..7007776 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -418,10 +418,8 @@ namespace Data {
         Data::Hash<T> hasher;
 
         for (T dataElement : *(this->containerPtr)) {
-            // Rotate by 1 because otherwise, xor is comutative.
             this->cachedHash =
-                (this->cachedHash >> 1) | (this->cachedHash << 63);
-            this->cachedHash ^= hasher((T)dataElement);
+                Data::_Append_hash(this->cachedHash, hasher((T)dataElement));
         }
 
         // Validate the cached hash value
diff --git a/gegelatilib/include/data/hash.h b/gegelatilib/include/data/hash.h
index 999f739..afd3c17 100644
--- a/gegelatilib/include/data/hash.h
+++ b/gegelatilib/include/data/hash.h
@@ -72,6 +72,15 @@ namespace Data {
         return _Val;
     }
 
+    /// Append a hash to another one. Contrary to a simple (rotated) xor, the
+    /// contributions of several appended hashes can not cancel each other.
+    _NODISCARD inline size_t _Append_hash(const size_t _Val,
+                                          const size_t _Hash) noexcept
+    {
+        return (((_Val >> 1) | (_Val << (sizeof(size_t) * 8 - 1))) ^ _Hash) *
+               _FNV_prime;
+    }
+
     template <class _Kty>
     _NODISCARD size_t _Fnv1a_append_value(const size_t _Val,
                                           const _Kty& _Keyval) noexcept
diff --git a/gegelatilib/include/data/pointerWrapper.h b/gegelatilib/include/data/pointerWrapper.h
index 0fbf6aa..dc227ce 100644
--- a/gegelatilib/include/data/pointerWrapper.h
+++ b/gegelatilib/include/data/pointerWrapper.h
@@ -154,11 +154,8 @@ namespace Data {
             // reset
             this->cachedHash = Data::Hash<size_t>()(this->id);
 
-            // Rotate by 1 because otherwise, xor is comutative.
-            this->cachedHash =
-                (this->cachedHash >> 1) | (this->cachedHash << 63);
-
-            this->cachedHash ^= Data::Hash<T>()(*this->containerPtr);
+            this->cachedHash = Data::_Append_hash(
+                this->cachedHash, Data::Hash<T>()(*this->containerPtr));
             return this->cachedHash;
         }
         else {
diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index deeef8a..33079fe 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -36,6 +36,7 @@
 #include <math.h>
 
 #include "archive.h"
+#include "data/hash.h"
 
 Archive::~Archive()
 {
@@ -54,7 +55,7 @@ size_t Archive::getCombinedHash(
     size_t hash = 0;
     for (const std::reference_wrapper<const Data::DataHandler> dHandler :
          dHandlers) {
-        hash ^= dHandler.get().getHash();
+        hash = Data::_Append_hash(hash, dHandler.get().getHash());
     }
     return hash;
 }
-- 
2.43.0


From 932212c378f448a7ad3c985131d94adeeff2b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 11/37] fix: treat NaN results as -inf when comparing mutated
 programs with the archive

---
 gegelatilib/src/mutator/tpgMutator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index cf6be20..cc34e8a 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -35,6 +35,8 @@
  */
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 #include <mutex>
 #include <numeric>
 #include <queue>
@@ -350,6 +352,10 @@ void Mutator::TPGMutator::mutateProgramBehaviorAgainstArchive(
             // Execute the mutated program on the archive data handlers
             pee.setDataSources(archiveDatahandler.second);
             double result = pee.executeProgram();
+            // As for archived bids, NaN results are equivalent to -inf.
+            result = (std::isnan(result))
+                         ? -std::numeric_limits<double>::infinity()
+                         : result;
             hashesAndResults.insert({archiveDatahandler.first, result});
         }
 
-- 
2.43.0


From f9e58afada45855e9239c109bb6621018a20fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 12/37] fix: forget the results and best root of the previous
 graph

init kept the results of the roots of the previous TPGGraph, and a generation
starting without root team replaced the whole graph while keeping them. As
vertices are identified by their address, a new vertex could inherit the
results, or the best root status, of a removed one.
---
 gegelatilib/src/learn/learningAgent.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..89a0ddc 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -36,6 +36,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <inttypes.h>
 #include <queue>
 
@@ -44,6 +45,7 @@
 #include "mutator/rng.h"
 #include "mutator/tpgMutator.h"
 #include "tpg/tpgExecutionEngine.h"
+#include "tpg/tpgTeam.h"
 
 #include "learn/learningAgent.h"
 
@@ -78,8 +80,9 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Clear the best root and the results of the previous roots
+    this->forgetPreviousResults();
+    this->bestScoreLastGen = 0.0;
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
@@ -229,6 +232,17 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
         logger.get().logNewGeneration(generationNumber);
     }
 
+    // If there is no root team left, populateTPG replaces the whole TPGGraph
+    // and the records on its vertices become meaningless.
+    auto roots = this->tpg->getRootVertices();
+    if (std::none_of(roots.begin(), roots.end(),
+                     [](const TPG::TPGVertex* root) {
+                         return dynamic_cast<const TPG::TPGTeam*>(root) !=
+                                nullptr;
+                     })) {
+        this->forgetPreviousResults();
+    }
+
     // Populate Sequentially
     Mutator::TPGMutator::populateTPG(*this->tpg, this->archive,
                                      this->params.mutation, this->rng,
-- 
2.43.0


From 8f3222816b2d036fff5223f5d94a2e91339d9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:41 +0000
Subject: [PATCH 13/37] fix: do not confuse archived programs with others
 allocated at the same address

The archive groups its recordings per program to check that the behaviour of a
new program is unique. Recordings outlive their program, whose address may be
given to a new program, so that the outcome depended on the allocator. Programs
now have an identifier, which is never reused.
---
 gegelatilib/include/archive.h         |  9 ++++++---
 gegelatilib/include/program/program.h | 22 ++++++++++++++++++++++
 gegelatilib/src/archive.cpp           |  8 ++++----
 gegelatilib/src/program/program.cpp   |  2 ++
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/include/archive.h b/gegelatilib/include/archive.h
index 123bc01..bdad215 100644
--- a/gegelatilib/include/archive.h
+++ b/gegelatilib/include/archive.h
@@ -59,6 +59,9 @@ typedef struct ArchiveRecording
     /// Pointer to the Program. This pointer may point to a freed program.
     const Program::Program* const prog;
 
+    /// Identifier of the Program, which remains unique if it was freed.
+    const uint64_t progId;
+
     /// Hash of the set of DataHandler for this recording
     const size_t dataHash;
 
@@ -108,8 +111,8 @@ class Archive
         dataHandlers;
 
     /**
-     * \brief Map storing the Program pointers referenced in recordings the
-     * associated recording.
+     * \brief Map storing the identifier of the Program referenced in
+     * recordings and the associated recordings.
      *
      * The Map is filled in the addRecording method, and elements are removed
      * whenever the las ArchiveRecording referencing a Program is removed from
@@ -117,7 +120,7 @@ class Archive
      *
      * The Map is used to speed the unicity tests.
      */
-    std::map<const Program::Program*, std::deque<ArchiveRecording>>
+    std::map<uint64_t, std::deque<ArchiveRecording>>
         recordingsPerProgram;
 
     /// Recordings of the Archive
diff --git a/gegelatilib/include/program/program.h b/gegelatilib/include/program/program.h
index ae4b77c..b885e96 100644
--- a/gegelatilib/include/program/program.h
+++ b/gegelatilib/include/program/program.h
@@ -38,6 +38,8 @@
 #define PROGRAM_H
 
 #include <algorithm>
+#include <atomic>
+#include <cstdint>
 #include <vector>
 
 #include "data/constantHandler.h"
@@ -51,7 +53,14 @@ namespace Program {
      */
     class Program
     {
+      private:
+        /// Number of Programs created so far.
+        static std::atomic<uint64_t> count;
+
       protected:
+        /// Identifier of the Program, never given to another Program.
+        const uint64_t id = count++;
+
         /// Environment within which the Program will be executed.
         const Environment& environment;
 
@@ -130,6 +139,19 @@ namespace Program {
          */
         ~Program();
 
+        /**
+         * \brief Get the identifier of the Program.
+         *
+         * Contrary to its address, the identifier of a Program is never reused,
+         * even when the Program is destroyed. A copy has its own identifier.
+         *
+         * \return the identifier of this Program.
+         */
+        uint64_t getId() const
+        {
+            return this->id;
+        }
+
         /**
          * \brief Add a new line to the Program with only 0 bits.
          *
diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 33079fe..f1a17c1 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -97,16 +97,16 @@ void Archive::addRecording(
         }
 
         // Create and stores the recording
-        ArchiveRecording recording{program, hash, result};
+        ArchiveRecording recording{program, program->getId(), hash, result};
         this->recordings.push_back(recording);
 
         // Update the recordings per Program
-        auto iterNbRecordings = this->recordingsPerProgram.find(program);
+        auto iterNbRecordings = this->recordingsPerProgram.find(program->getId());
         if (iterNbRecordings != this->recordingsPerProgram.end()) {
             iterNbRecordings->second.push_back(recording);
         }
         else {
-            this->recordingsPerProgram.insert({program, {recording}});
+            this->recordingsPerProgram.insert({program->getId(), {recording}});
         }
 
         // Check if Archive max size was reached (or exceeded)
@@ -139,7 +139,7 @@ void Archive::addRecording(
 
             // Update the recordingsPerProgram of the corresponding Program,
             // and remove it if it was the last.
-            auto iter = this->recordingsPerProgram.find(rec.prog);
+            auto iter = this->recordingsPerProgram.find(rec.progId);
             iter->second.pop_front();
             if (iter->second.size() == 0) {
                 this->recordingsPerProgram.erase(iter);
diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index 8aae69c..d703c36 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -44,6 +44,8 @@
 
 #include "program/program.h"
 
+std::atomic<uint64_t> Program::Program::count{0};
+
 Program::Program::~Program()
 {
     while (!lines.empty()) {
-- 
2.43.0


From 50ebcb4627204c28e6e2dbe17863d8192f7cb5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 14/37] fix: count the DataHandlers atomically

DataHandlers are created concurrently by the threads of ParallelLearningAgent.
---
 gegelatilib/include/data/dataHandler.h | 3 ++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..9ed7f25 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -57,7 +58,7 @@ namespace Data {
         /**
          * \brief Static count used to initialize the id of each DataHandler.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index ce2ecae..c582e2c 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -40,7 +40,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From ed75f4ee82567a0d568769c1834a1f4b13139b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 15/37] fix: remove the data races between the threads of
 parallel evaluations

The LearningEnvironment was cloned by each thread while the main thread was
already using it, and the size of the queue of jobs was read without its mutex.
---
 .../include/learn/parallelLearningAgent.h     |  7 ++--
 .../src/learn/parallelLearningAgent.cpp       | 38 +++++++++----------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..feef586 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment LearningEnvironment used by this
+         * thread only.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..9787246 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -92,31 +92,25 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
 
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    bool doProcess = true;
+    while (doProcess) {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -125,7 +119,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -137,7 +130,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -155,11 +148,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     }
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -246,6 +234,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for each additional thread. (Before any of
+    // them is started, as the main environment will be used by this thread.)
+    std::vector<std::unique_ptr<LearningEnvironment>> clonedEnvironments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        clonedEnvironments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
@@ -253,14 +248,15 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*clonedEnvironments.at(i))));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From 418dd30e9dcd246cf041056db767686f2f269a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:03 +0000
Subject: [PATCH 16/37] fix: do not share the address space cache of a
 DataHandler between threads

---
 gegelatilib/include/data/array2DWrapper.h | 43 ++++++++++-------------
 gegelatilib/include/data/arrayWrapper.h   | 33 ++++++++---------
 2 files changed, 32 insertions(+), 44 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 86666b7..9e94c78 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -66,25 +66,6 @@ namespace Data {
      */
     template <class T> class Array2DWrapper : public ArrayWrapper<T>
     {
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the Array2DWrapper. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         *
-         * Like the getAddressSpace method of the 2D array, this map stores all
-         * type dimensions.
-         */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
-            cachedAddressSpace;
-
       protected:
         /// Number of columns of the 2D array.
         size_t width;
@@ -217,9 +198,21 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
+        // Caching mechanism for storing the addressSpace for different types.
+        // For each width, height and data type, this map stores the size of
+        // the addressSpace, and all type dimensions, to compute them only once
+        // per data type requested by the Instructions. The cache is private to
+        // each thread, because DataHandlers may be shared by several threads.
+        static thread_local std::map<
+            std::tuple<size_t, size_t, std::type_index>,
+            std::tuple<size_t, size_t, size_t>>
+            cachedAddressSpace;
+        const auto key =
+            std::make_tuple(this->width, this->height, std::type_index(type));
+
         // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             if (dim1 != nullptr) {
                 *dim1 = std::get<1>(iter->second);
             }
@@ -232,8 +225,8 @@ namespace Data {
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
-                type, std::make_tuple(this->nbElements, 0, 0));
+            cachedAddressSpace.emplace(
+                key, std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
 
@@ -272,8 +265,8 @@ namespace Data {
                     if (dim2 != nullptr) {
                         *dim2 = typeW;
                     }
-                    this->cachedAddressSpace.emplace(
-                        type, std::make_tuple(result, typeH, typeW));
+                    cachedAddressSpace.emplace(
+                        key, std::make_tuple(result, typeH, typeW));
                 }
             }
         }
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index 7007776..ffcfa63 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -72,21 +72,6 @@ namespace Data {
                       "Template class PrimitiveTypeArray<T> can only be used "
                       "for primitive types.");
 
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the PrimitiveTypeArray. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
-
       protected:
         /**
          * \brief Number of elements contained pointer vector.
@@ -273,14 +258,24 @@ namespace Data {
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
+        // Caching mechanism for storing the addressSpace for different types.
+        // For each number of elements and each data type, this map stores the
+        // size of the addressSpace, to compute it only once per data type
+        // requested by the Instructions. The cache is private to each thread,
+        // because DataHandlers may be shared by several threads.
+        static thread_local std::map<std::pair<size_t, std::type_index>, size_t>
+            cachedAddressSpace;
+        const auto key =
+            std::make_pair(this->nbElements, std::type_index(type));
+
         // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             return iter->second;
         }
 
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
+            cachedAddressSpace.emplace(key, this->nbElements);
             return this->nbElements;
         }
 
@@ -295,7 +290,7 @@ namespace Data {
             int size = std::atoi(cm[2].str().c_str());
             if (size <= this->nbElements) {
                 size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
+                cachedAddressSpace.emplace(key, result);
                 return result;
             }
         }
-- 
2.43.0


From cab5a49aae703240e65e9e291cb11c4bd2a3385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:30 +0000
Subject: [PATCH 17/37] fix: never use missing or removed vertices as champions

---
 .../include/learn/adversarialLearningAgent.h  | 21 ++++++++++++++++++
 gegelatilib/include/learn/learningAgent.h     |  2 +-
 .../src/learn/adversarialLearningAgent.cpp    | 22 +++++++++++++++++++
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..2cd6b85 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -229,6 +229,27 @@ namespace Learn {
             Learn::LearningMode mode,
             TPG::TPGGraph* tpgGraph = nullptr) override;
 
+        /**
+         * \brief Removes from the TPGGraph the root TPGVertex with the worst
+         * results.
+         *
+         * After calling the method of the base class, the champions that were
+         * removed from the TPGGraph are also removed from the list of
+         * champions.
+         *
+         * \param[in,out] results a multimap containing root TPGVertex
+         * associated to their score during an evaluation.
+         */
+        void decimateWorstRoots(
+            std::multimap<std::shared_ptr<EvaluationResult>,
+                          const TPG::TPGVertex*>& results) override;
+
+        /**
+         * \brief Resets the previous registered scores per root, and the
+         * champions selected with these scores.
+         */
+        void forgetPreviousResults() override;
+
         /**
          * \brief Override of the LearningAgent::makeJob function.
          *
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 6fcadab..072fb7d 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -352,7 +352,7 @@ namespace Learn {
          * been tested. To use for example when there is a scoring policy
          * change.
          */
-        void forgetPreviousResults();
+        virtual void forgetPreviousResults();
 
         /**
          * \brief This method update the best score reached at the last
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..2ec0372 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -34,6 +34,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -192,6 +193,7 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
@@ -253,6 +255,26 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     return jobs;
 }
 
+void Learn::AdversarialLearningAgent::decimateWorstRoots(
+    std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
+        results)
+{
+    LearningAgent::decimateWorstRoots(results);
+
+    // Some champions may have been removed in place of preserved root actions.
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [this](const TPG::TPGVertex* champion) {
+                                       return !this->tpg->hasVertex(*champion);
+                                   }),
+                    champions.end());
+}
+
+void Learn::AdversarialLearningAgent::forgetPreviousResults()
+{
+    LearningAgent::forgetPreviousResults();
+    champions.clear();
+}
+
 std::shared_ptr<Learn::Job> Learn::AdversarialLearningAgent::makeJob(
     const TPG::TPGVertex* vertex, Learn::LearningMode mode, int idx,
     TPG::TPGGraph* tpgGraph)
-- 
2.43.0


From f91aefcb31cb126c0b79f8d40907038a9509b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 18/37] fix: support generations where all roots are removed

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 5 +++++
 gegelatilib/src/learn/learningAgent.cpp            | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 2ec0372..045f960 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -190,6 +190,11 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
 
     auto roots = tpgGraph->getRootVertices();
 
+    // Without roots, there is nothing to evaluate
+    if (roots.empty()) {
+        return jobs;
+    }
+
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 89a0ddc..0242a62 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -390,7 +390,14 @@ void Learn::LearningAgent::updateEvaluationRecords(
         }
     }
 
-    { // Update bestRoot
+    if (results.empty()) {
+        // All roots were removed from the graph
+        if (this->bestRoot.first != nullptr &&
+            !this->tpg->hasVertex(*this->bestRoot.first)) {
+            this->bestRoot = {nullptr, nullptr};
+        }
+    }
+    else { // Update bestRoot
         auto iterator = --results.end();
         const std::shared_ptr<EvaluationResult> evaluation = iterator->first;
         const TPG::TPGVertex* candidate = iterator->second;
-- 
2.43.0


From 927d98d67849648d2048000a95f0cc01070cd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 19/37] fix: combine results without any evaluation without
 producing NaN

---
 gegelatilib/src/learn/adversarialEvaluationResult.cpp    | 5 +++++
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 8 ++++++++
 gegelatilib/src/learn/evaluationResult.cpp               | 4 +++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialEvaluationResult.cpp b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
index 77a41a9..e92a693 100644
--- a/gegelatilib/src/learn/adversarialEvaluationResult.cpp
+++ b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
@@ -59,6 +59,11 @@ Learn::EvaluationResult& Learn::AdversarialEvaluationResult::operator+=(
             "Size mismatch between AdversarialEvaluationResults.");
     }
 
+    // Without any evaluation, the weighted addition would be 0/0
+    if (this->nbEvaluation + otherConverted.nbEvaluation == 0) {
+        return *this;
+    }
+
     // If the added type is Learn::EvaluationResult
     // Weighted addition of results
     for (int i = 0; i < scores.size(); i++) {
diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..154c28e 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,14 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // Without any evaluation of this class, the weighted sum would be
+            // 0/0
+            if (this->nbEvaluationPerClass.at(idx) +
+                    otherEval.nbEvaluationPerClass.at(idx) ==
+                0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
diff --git a/gegelatilib/src/learn/evaluationResult.cpp b/gegelatilib/src/learn/evaluationResult.cpp
index cffb98b..0c827c5 100644
--- a/gegelatilib/src/learn/evaluationResult.cpp
+++ b/gegelatilib/src/learn/evaluationResult.cpp
@@ -57,7 +57,9 @@ Learn::EvaluationResult& Learn::EvaluationResult::operator+=(
     }
 
     // If the added type is Learn::EvaluationResult
-    if (thisType == typeid(Learn::EvaluationResult)) {
+    // (Without any evaluation, the weighted addition would be 0/0)
+    if (thisType == typeid(Learn::EvaluationResult) &&
+        this->nbEvaluation + other.nbEvaluation > 0) {
         // Weighted addition of results
         this->result = this->result * (double)this->nbEvaluation +
                        other.result * (double)other.nbEvaluation;
-- 
2.43.0


From 895bb5394e966e3119d08a514ec751f4c3c9a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 20/37] fix: keep exactly the best policy, and nothing about
 the removed ones

---
 .../include/learn/adversarialLearningAgent.h  | 12 +++++++++++
 gegelatilib/include/learn/learningAgent.h     |  2 +-
 .../src/learn/adversarialLearningAgent.cpp    | 21 ++++++++++++++-----
 gegelatilib/src/learn/learningAgent.cpp       | 15 +++++++++----
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 2cd6b85..895f739 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -87,6 +87,9 @@ namespace Learn {
          */
         size_t agentsPerEvaluation;
 
+        /// \brief Remove the champions that are no longer in the TPGGraph.
+        void forgetRemovedChampions();
+
         /**
          * \brief Subfunction of evaluateAllRootsInParallel which handles the
          * gathering of results and the merge of the archives, adapted to
@@ -244,6 +247,15 @@ namespace Learn {
             std::multimap<std::shared_ptr<EvaluationResult>,
                           const TPG::TPGVertex*>& results) override;
 
+        /**
+         * \brief This method keeps only the bestRoot policy in the TPGGraph.
+         *
+         * After calling the method of the base class, the champions that were
+         * removed from the TPGGraph are also removed from the list of
+         * champions.
+         */
+        void keepBestPolicy() override;
+
         /**
          * \brief Resets the previous registered scores per root, and the
          * champions selected with these scores.
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 072fb7d..e68780c 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -389,7 +389,7 @@ namespace Learn {
          * If the TPGVertex referenced in the bestRoot attribute is no longer
          * a TPGVertex of the TPGGraph, nothing happens.
          */
-        void keepBestPolicy();
+        virtual void keepBestPolicy();
 
         /**
          * \brief Takes a given TPGVertex and creates a job containing it.
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 045f960..257ff39 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -260,6 +260,15 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     return jobs;
 }
 
+void Learn::AdversarialLearningAgent::forgetRemovedChampions()
+{
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [this](const TPG::TPGVertex* champion) {
+                                       return !this->tpg->hasVertex(*champion);
+                                   }),
+                    champions.end());
+}
+
 void Learn::AdversarialLearningAgent::decimateWorstRoots(
     std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
         results)
@@ -267,11 +276,13 @@ void Learn::AdversarialLearningAgent::decimateWorstRoots(
     LearningAgent::decimateWorstRoots(results);
 
     // Some champions may have been removed in place of preserved root actions.
-    champions.erase(std::remove_if(champions.begin(), champions.end(),
-                                   [this](const TPG::TPGVertex* champion) {
-                                       return !this->tpg->hasVertex(*champion);
-                                   }),
-                    champions.end());
+    this->forgetRemovedChampions();
+}
+
+void Learn::AdversarialLearningAgent::keepBestPolicy()
+{
+    LearningAgent::keepBestPolicy();
+    this->forgetRemovedChampions();
 }
 
 void Learn::AdversarialLearningAgent::forgetPreviousResults()
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 0242a62..84f4375 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -439,18 +439,25 @@ double Learn::LearningAgent::getBestScoreLastGen() const
 void Learn::LearningAgent::keepBestPolicy()
 {
     // Evaluate all roots
-    if (this->tpg->hasVertex(*this->bestRoot.first)) {
+    if (this->bestRoot.first != nullptr &&
+        this->tpg->hasVertex(*this->bestRoot.first)) {
         auto bestRootVertex = this->bestRoot.first;
 
-        // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
+        // Remove all but the best root from the tpg (even if the best root is
+        // currently referenced by another root).
+        bool isVertexRemoved;
+        do {
+            isVertexRemoved = false;
             auto roots = this->tpg->getRootVertices();
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    // Removed stored result (if any)
+                    this->resultsPerRoot.erase(root);
+                    isVertexRemoved = true;
                 }
             }
-        }
+        } while (isVertexRemoved);
     }
 }
 
-- 
2.43.0


From 8be6c8a8a87a9a350e02a3744f6594bb9990418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 21/37] fix: export the destination of each edge sharing a
 program

---
 gegelatilib/include/file/tpgGraphDotExporter.h |  9 +++++++++
 gegelatilib/src/file/tpgGraphDotExporter.cpp   | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..2bde02d 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -70,6 +70,15 @@ namespace File {
          */
         std::string offset;
 
+        /**
+         * \brief Destination of the first edge printed with each Program.
+         *
+         * When a Program is shared by several edges, the destination is
+         * printed again for the edges leading elsewhere.
+         */
+        std::map<const Program::Program*, const TPG::TPGVertex*>
+            programDestination;
+
         /**
          * \brief Print the dot content for the given TPGTeam.
          *
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..cfda3f5 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -72,7 +72,9 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
     uint64_t progID;
 
     Program::Program& p = edge.getProgram();
-    if (this->findProgramID(edge.getProgram(), progID)) {
+    const TPG::TPGVertex* dest = edge.getDestination();
+    bool isNewProgram = this->findProgramID(p, progID);
+    if (isNewProgram) {
         // First time thie Program is encountered
         fprintf(pFile, "%sP%" PRIu64 " [fillcolor=\"#cccccc\" shape=point] //",
                 this->offset.c_str(), progID);
@@ -85,15 +87,19 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
         printProgram(p);
         fprintf(pFile, "%sP%" PRIu64 " -> I%" PRIu64 "[style=invis]\n",
                 this->offset.c_str(), progID, progID);
-        auto* dest = edge.getDestination();
+        this->programDestination[&p] = dest;
+    }
+
+    // The destination is left implicit only if it is the one of the first edge
+    // printed with this program.
+    if (isNewProgram || this->programDestination.at(&p) != dest) {
         if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
-            uint64_t actionID =
-                printTPGAction(*(const TPG::TPGAction*)edge.getDestination());
+            uint64_t actionID = printTPGAction(*(const TPG::TPGAction*)dest);
             fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 " -> A%" PRIu64 "\n",
                     this->offset.c_str(), srcID, progID, actionID);
         }
         else {
-            uint64_t destID = findVertexID(*edge.getDestination());
+            uint64_t destID = findVertexID(*dest);
             fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 " -> T%" PRIu64 "\n",
                     this->offset.c_str(), srcID, progID, destID);
         }
-- 
2.43.0


From ff59a9f932fbca68855500491997d93e292caf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 22/37] fix: import 64-bit identifiers from dot files

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 34 ++++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..f45c7a6 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -69,10 +69,10 @@ void File::TPGGraphDotImporter::readOperands(std::string& str, Program::Line& l)
 
     for (int i = 0; i < this->tpg.getEnvironment().getMaxNbOperands(); ++i) {
         pos2 = str.find("|");
-        dataIndex = std::stoi(str.substr(pos, pos2));
+        dataIndex = std::stoull(str.substr(pos, pos2));
         pos2++; // skip the '|'
         pos3 = str.find("#");
-        location = std::stoi(str.substr(pos2, pos3 - pos2));
+        location = std::stoull(str.substr(pos2, pos3 - pos2));
         str = str.substr(pos3 + 1,
                          str.size() -
                              pos3); // store the rest of the string and iterate
@@ -87,7 +87,7 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
     // a line is stored in the .dot file with the following format
     // inst_idx|dest_idx&op1_param1|op1_param2#...#opN_param1|opN_param2
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t prog_label = std::stoi(matches[1]);
+        uint64_t prog_label = std::stoull(matches[1]);
         std::string label = matches[2];
 
         auto p_it = programID.find(prog_label);
@@ -120,12 +120,12 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
                 // extract everything before pos (ie |)
                 // corresponds to instruction index
                 pos1 = instruction.find("|");
-                instructionIdx = std::stoi(instruction.substr(0, pos1));
+                instructionIdx = std::stoull(instruction.substr(0, pos1));
 
                 // extract destination index;
                 pos2 = instruction.find("&");
                 pos1++; // skip the '|'
-                destinationIdx = std::stoi(instruction.substr(
+                destinationIdx = std::stoull(instruction.substr(
                     pos1, pos2 - pos1)); // extract and convert to int
 
                 // extract operands as a string
@@ -179,7 +179,7 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
         }
         this->programID.insert(
             std::pair<uint64_t, std::shared_ptr<Program::Program>>(
-                std::stoi(matches[1]), p));
+                std::stoull(matches[1]), p));
     }
 }
 
@@ -204,7 +204,7 @@ void File::TPGGraphDotImporter::readTeam(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         this->vertexID.insert(std::pair<uint64_t, const TPG::TPGVertex*>(
-            std::stoi(matches[1]), &this->tpg.addNewTeam()));
+            std::stoull(matches[1]), &this->tpg.addNewTeam()));
     }
 }
 
@@ -212,8 +212,8 @@ void File::TPGGraphDotImporter::readAction(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         // the regex matches two groups (action number and action label)
-        uint64_t action_label = std::stoi(matches[2]);
-        uint64_t action_number = std::stoi(matches[1]);
+        uint64_t action_label = std::stoull(matches[2]);
+        uint64_t action_number = std::stoull(matches[1]);
 
         // elmt points to the action with the same label as the action we are
         // parsing
@@ -232,9 +232,9 @@ void File::TPGGraphDotImporter::readLinkTeamProgramAction(std::smatch& matches)
 {
     // Creating a edge from a team to an action
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t team_in = std::stoi(matches[1]);
-        uint64_t program = std::stoi(matches[2]);
-        uint64_t act_out = std::stoi(matches[3]);
+        uint64_t team_in = std::stoull(matches[1]);
+        uint64_t program = std::stoull(matches[2]);
+        uint64_t act_out = std::stoull(matches[3]);
 
         // get the action depending on its label
         auto action_lab = this->actionLabel.find(act_out);
@@ -258,9 +258,9 @@ void File::TPGGraphDotImporter::readLinkTeamProgramTeam(std::smatch& matches)
 {
     // creating a edge between two teams
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t team_in = std::stoi(matches[1]);
-        uint64_t program = std::stoi(matches[2]);
-        uint64_t team_out = std::stoi(matches[3]);
+        uint64_t team_in = std::stoull(matches[1]);
+        uint64_t program = std::stoull(matches[2]);
+        uint64_t team_out = std::stoull(matches[3]);
 
         // get the source and destination teams
         auto t1_it = this->vertexID.find(team_in);
@@ -283,8 +283,8 @@ void File::TPGGraphDotImporter::readLinkTeamProgramTeam(std::smatch& matches)
 void File::TPGGraphDotImporter::readLinkTeamProgram(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t team_in = std::stoi(matches[1]);
-        uint64_t program = std::stoi(matches[2]);
+        uint64_t team_in = std::stoull(matches[1]);
+        uint64_t program = std::stoull(matches[2]);
 
         // find edge
         const std::list<std::unique_ptr<TPG::TPGEdge>>& edges =
-- 
2.43.0


From 2ef96b78b15608518106aa4464e97a89c7c4944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 23/37] fix: import dot files with long lines

---
 .../include/file/tpgGraphDotImporter.h        | 11 +++----
 gegelatilib/src/file/tpgGraphDotImporter.cpp  | 29 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotImporter.h b/gegelatilib/include/file/tpgGraphDotImporter.h
index d57bcce..f201168 100644
--- a/gegelatilib/include/file/tpgGraphDotImporter.h
+++ b/gegelatilib/include/file/tpgGraphDotImporter.h
@@ -170,7 +170,7 @@ namespace File {
         /**
          * \brief contains the regex to identify an instruction declaration
          *
-         * this regex values "I([0-9]+)\\x20\\x5B.*label=\"(.*)\"\\x5D"
+         * this regex values "I([0-9]+)\\x20\\x5B.*?label=\""
          *
          * Explanation :
          *
@@ -178,10 +178,11 @@ namespace File {
          * stored in a group
          * \\x20\\x5B    looks for a succession of a whitespace and an opening
          * bracket ('[')
-         * .*			the following can be any sequence of character
+         * .*?			the following can be any sequence of character
          * label=\"	    looks for the label declaration sequence.
-         * (.*)\"\\x5D	stores the content of the label in a group and  look for
-         * the ending sequence : "]
+         *
+         * The content of the label is what follows, until the ending sequence
+         * : "]
          *
          * Example:
          * I0 [shape=box style=invis]			Should pass
@@ -403,7 +404,7 @@ namespace File {
          * \brief Maximum number of characters that can be read in a single
          * line.
          */
-        static const unsigned int MAX_READ_SIZE = 4096;
+        static const unsigned int MAX_READ_SIZE = 1 << 20;
 
         /**
          * Destructor for the importer.
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index f45c7a6..15d6748 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -42,7 +42,7 @@ const std::string File::TPGGraphDotImporter::teamRegex(
 const std::string File::TPGGraphDotImporter::programRegex(
     "P([0-9]+)\\x20\\x5B.*\\x5D");
 const std::string File::TPGGraphDotImporter::instructionRegex(
-    "I([0-9]+)\\x20\\x5B.*label=\"(.*)\"\\x5D");
+    "I([0-9]+)\\x20\\x5B.*?label=\"");
 const std::string File::TPGGraphDotImporter::actionRegex(
     "A([0-9]+)\\x20\\x5B.*=\"([0-9]+)\"\\x5D");
 const std::string File::TPGGraphDotImporter::linkProgramInstructionRegex(
@@ -88,7 +88,10 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
     // inst_idx|dest_idx&op1_param1|op1_param2#...#opN_param1|opN_param2
     if (!this->lastLine.empty() && !matches.empty()) {
         uint64_t prog_label = std::stoull(matches[1]);
-        std::string label = matches[2];
+        // the label is not captured by the regex, whose matching is recursive
+        // and would overflow the stack on long programs.
+        std::string label = matches.suffix();
+        label.erase(label.rfind("\"]"));
 
         auto p_it = programID.find(prog_label);
         if (p_it != programID.end() && !label.empty()) {
@@ -185,18 +188,17 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
 
 void File::TPGGraphDotImporter::dumpTPGGraphHeader()
 {
-
-    char buffer[MAX_READ_SIZE];
+    std::string buffer;
 
     // skips the comment lines of header (if any)
-    do {
-        pFile.getline(buffer, MAX_READ_SIZE);
-    } while (buffer[0] == '/');
+    while (std::getline(pFile, buffer) && !buffer.empty() &&
+           buffer[0] == '/') {
+    }
 
     // Skip the header (should be 3 lines, including one covered by previous
     // while loop)
     for (int i = 0; i < 2; i++) {
-        pFile.getline(buffer, MAX_READ_SIZE);
+        std::getline(pFile, buffer);
     }
 }
 
@@ -336,8 +338,6 @@ void File::TPGGraphDotImporter::importGraph()
 
 bool File::TPGGraphDotImporter::readLineFromFile()
 {
-    char buffer[MAX_READ_SIZE];
-
     std::regex testActionDeclare(this->actionRegex);
     std::regex testTeamDeclare(this->teamRegex);
     std::regex testProgramDeclare(this->programRegex);
@@ -349,11 +349,9 @@ bool File::TPGGraphDotImporter::readLineFromFile()
 
     std::smatch matches;
 
-    if (!pFile.getline(buffer, MAX_READ_SIZE))
+    if (!std::getline(pFile, this->lastLine) ||
+        this->lastLine.size() >= MAX_READ_SIZE)
         throw std::ifstream::failure("Couldn't read in the given file");
-    else {
-        this->lastLine = buffer;
-    }
 
     // check the line shape and parse it
     if (std::regex_search(this->lastLine, matches, testTeamDeclare)) {
@@ -366,7 +364,8 @@ bool File::TPGGraphDotImporter::readLineFromFile()
         readProgram(matches);
     }
     else if (std::regex_search(this->lastLine, matches,
-                               testInstructionDeclare)) {
+                               testInstructionDeclare) &&
+             matches.suffix().str().find("\"]") != std::string::npos) {
         readLine(matches);
     }
     else if (std::regex_search(this->lastLine, matches, testLinkPI)) {
-- 
2.43.0


From 1f9d25fe2454b88abe58314c6e8ecd316ca75224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 24/37] fix: export a sub-graph reduced to an action

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index cfda3f5..f132914 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -274,6 +274,12 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
         }
     }
 
+    // Without any edge, the root may be an action.
+    if (edgesToPrint.empty() &&
+        dynamic_cast<const TPG::TPGAction*>(root) != nullptr) {
+        this->printTPGAction(*(const TPG::TPGAction*)root);
+    }
+
     // Print edges
     for (const TPG::TPGEdge* edge : edgesToPrint) {
         this->printTPGEdge(*edge);
-- 
2.43.0


From 0ebd06a807104cb2b50fd54c1b617bd1315b3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 25/37] fix: keep the edges of each team in order when the
 source of an edge changes

---
 gegelatilib/src/tpg/tpgGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index f734434..a8373d7 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -297,6 +297,9 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
         if (iterNewSrc != iterOldSrc) {
             (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
             (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+            // The edge is now the last of its source: keep the edges of each
+            // team in the same order in the graph.
+            this->edges.splice(this->edges.end(), this->edges, iterEdge);
         }
         // Set the destination
         iterEdge->get()->setSource(*(iterNewSrc));
-- 
2.43.0


From a6cd1604d1add2233a11b0aeeb4c60c2b2bbae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 26/37] fix: read parameters above 2^32 from files

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..3434352 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -102,19 +102,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -143,7 +143,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -163,7 +163,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -179,7 +179,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -207,15 +207,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From 300589f1d71b421e2291af340df006d8f620ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 27/37] fix: ignore ill-formed parameter files entirely

---
 gegelatilib/src/file/parametersParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 3434352..23805c9 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -58,6 +58,8 @@ void File::ParametersParser::readConfigFile(const char* path, Json::Value& root)
     if (!parseFromStream(builder, ifs, &root, &errs)) {
         std::cout << errs << std::endl;
         std::cerr << "Ignoring ill-formed config file " << path << std::endl;
+        // Forget what was parsed before the error
+        root = Json::Value();
     }
 }
 
-- 
2.43.0


From b4586b7503118b5d755e1e139a8683d361063425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 28/37] fix: accept operand types made of several words in
 print templates

---
 gegelatilib/include/instructions/instruction.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/instructions/instruction.h b/gegelatilib/include/instructions/instruction.h
index 7f5a061..70546d7 100644
--- a/gegelatilib/include/instructions/instruction.h
+++ b/gegelatilib/include/instructions/instruction.h
@@ -125,9 +125,10 @@ namespace Instructions {
          * \endcode
          * match 1 to infinite words separated by \c : . Allow to match \c
          *Data::Constant. \code{.unparse}
-         * ((struct )?[\\w:\\*]*)
+         * ((struct )?[\\w:\\*]+( [\\w:\\*]+)*)
          * \endcode
-         * match the primitive type of the operand. For MSVC Data::Constant is a
+         * match the primitive type of the operand, which may be made of several
+         *words (e.g. unsigned char). For MSVC Data::Constant is a
          *struct so we need to match this possibility too. \code{.unparse} [ ]?
          * \endcode
          * match if the operand is a 1D array without a static size. This
@@ -142,7 +143,8 @@ namespace Instructions {
          * match 0 to infinite dimensions that have static size.
          **/
         inline static const std::string GET_PRINT_PRIMITIVE_OPERAND_TYPE{
-            "(const )?((struct )?[\\w:\\*]*)[ ]?(\\[(\\d)+\\])*"};
+            "(const )?((struct )?[\\w:\\*]+( [\\w:\\*]+)*)[ ]?"
+            "(\\[(\\d)+\\])*"};
 
 #endif // CODE_GENERATION
 
-- 
2.43.0


From b35e1db03e842eda8ee6fd1251946dc4c38ef89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 29/37] fix: name the root action in the code generated in
 stack mode

---
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 40604f8..65ff8a3 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -122,7 +122,7 @@ void CodeGen::TPGStackGenerationEngine::generateAction(
 void CodeGen::TPGStackGenerationEngine::setRoot(const TPG::TPGVertex& team)
 {
     fileMainH << "\nextern void* (*root)(int* action);" << std::endl;
-    fileMain << "void* (*root)(int* action) = T" << findVertexID(team) << ";"
+    fileMain << "void* (*root)(int* action) = " << vertexName(team) << ";"
              << std::endl;
 }
 
-- 
2.43.0


From 94722a6565c955db40532e970c6e4082a100578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 30/37] fix: count the visits of root actions in the execution
 statistics

---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..32fe509 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -65,10 +65,11 @@ void TPG::ExecutionStats::analyzeInstrumentedGraph(const TPGGraph* graph)
     uint64_t nbInferences = std::accumulate(
         roots.cbegin(), roots.cend(), (uint64_t)0,
         [](uint64_t accu, const TPGVertex* vertex) {
-            const auto& rootTeam =
-                dynamic_cast<const TPGTeamInstrumented&>(*vertex);
-            // Raise std::bad_cast if not an instrumented team
-            return accu + rootTeam.getNbVisits();
+            // The root may be a team or an action.
+            const auto& root =
+                dynamic_cast<const TPGVertexInstrumentation&>(*vertex);
+            // Raise std::bad_cast if not an instrumented vertex
+            return accu + root.getNbVisits();
         });
 
     uint64_t nbEvaluatedTeams = 0;
-- 
2.43.0


From c482cc2a94fbad239b8360e586c95d556ed3670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 31/37] fix: do not log the absence of cycle after a cycle was
 detected

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..33317c6 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,7 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 1303aa13e63096234cbbcf30a8ef3cb83e145869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 32/37] fix: visit each vertex once when detecting cycles

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 33317c6..ab9553c 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -76,8 +76,11 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
             continue;
         }
 
-        // Mark vertex as visited
-        visitedVertices.insert(vertex);
+        // Mark vertex as visited. If it was already visited through another
+        // path, there is nothing new to find from there.
+        if (!visitedVertices.insert(vertex).second) {
+            continue;
+        }
 
         // Scan outgoing edges
         const TPG::TPGTeam* team = dynamic_cast<const TPG::TPGTeam*>(vertex);
-- 
2.43.0


From 5f0947240a46d5da580d9c0962c98f9740fbc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 33/37] fix: leave the engine as it was when a program or data
 sources are refused

setDataSources replaced the data sources before checking them, and threw
std::out_of_range instead of std::runtime_error when there were too many.
setProgram replaced the constants before checking the data sources.
---
 gegelatilib/include/program/programEngine.h | 14 ++++++++++++++
 gegelatilib/src/program/programEngine.cpp   | 14 +++++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/include/program/programEngine.h b/gegelatilib/include/program/programEngine.h
index 00e26a7..8773c21 100644
--- a/gegelatilib/include/program/programEngine.h
+++ b/gegelatilib/include/program/programEngine.h
@@ -291,6 +291,20 @@ namespace Program {
         // Check that T is either convertible to a const DataHandler
         static_assert(std::is_convertible<T&, const Data::DataHandler&>::value);
 
+        // Check the compatibility with the program before replacing anything.
+        const auto& envDataSrc =
+            this->program->getEnvironment().getDataSources();
+        bool compatible = dataSrc.size() <= envDataSrc.size();
+        for (size_t idx = 0; compatible && idx < dataSrc.size(); idx++) {
+            const Data::DataHandler& dataHandler = dataSrc.at(idx).get();
+            compatible = dataHandler.getId() == envDataSrc.at(idx).get().getId();
+        }
+        if (!compatible) {
+            throw std::runtime_error(
+                "Data sources characteristics for Program Execution differ "
+                "from Program reference Environment.");
+        }
+
         // Replace the references in attributes
         this->dataSources = dataSrc;
         // we need this offset to push the constant at the first
diff --git a/gegelatilib/src/program/programEngine.cpp b/gegelatilib/src/program/programEngine.cpp
index 1e2be82..f6ba686 100644
--- a/gegelatilib/src/program/programEngine.cpp
+++ b/gegelatilib/src/program/programEngine.cpp
@@ -41,13 +41,9 @@
 void Program::ProgramEngine::setProgram(const Program& prog)
 {
     // are constants used here ?
-    size_t offset = 1;
-    if (prog.getEnvironment().getNbConstant() > 0) {
-        // replace programs constants if already existing
-        dataScsConstsAndRegs.at(1) = prog.cGetConstantHandler();
-        // increment offset for the datahandlers verification
-        offset++;
-    }
+    const bool hasConstants = prog.getEnvironment().getNbConstant() > 0;
+    // increment offset for the datahandlers verification
+    const size_t offset = hasConstants ? 2 : 1;
 
     // Check dataSource are similar in all point to the program environment
     // offset is -1 if there is only the registers to ignore
@@ -78,6 +74,10 @@ void Program::ProgramEngine::setProgram(const Program& prog)
             // space size for each data type.
         }
     }
+    // replace programs constants if already existing
+    if (hasConstants) {
+        dataScsConstsAndRegs.at(1) = prog.cGetConstantHandler();
+    }
     // set the program
     this->program = &prog;
     // Reset Registers (in case it is not done when they are constructed)
-- 
2.43.0


From 7faade1e1bb8325ae5f73359d0a1f2cab149cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 34/37] fix: ignore all exceptions of lines when asked to

When exceptions are ignored, a line whose operand type is not provided by
its data source (std::invalid_argument or std::domain_error) must be skipped
like a line accessing missing data (std::out_of_range).
---
 gegelatilib/src/program/programEngine.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/program/programEngine.cpp b/gegelatilib/src/program/programEngine.cpp
index f6ba686..84536b4 100644
--- a/gegelatilib/src/program/programEngine.cpp
+++ b/gegelatilib/src/program/programEngine.cpp
@@ -174,9 +174,12 @@ void Program::ProgramEngine::iterateThroughtProgram(const bool ignoreException)
             // process the current line
             processLine();
         }
-        catch (std::out_of_range& e) {
+        catch (std::logic_error&) {
+            // std::out_of_range for missing instructions or data,
+            // std::invalid_argument or std::domain_error for types of operands
+            // that are not provided.
             if (!ignoreException) {
-                throw e; // rethrow
+                throw; // rethrow
             }
         }
 
-- 
2.43.0


From 8f10052676ec2e76522d03bbd613f90ad474e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 35/37] fix: release the array being built when reading out of
 the data of a wrapper throws

---
 gegelatilib/include/data/array2DWrapper.h | 7 ++++---
 gegelatilib/include/data/arrayWrapper.h   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 9e94c78..f50787d 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -306,6 +306,10 @@ namespace Data {
         // a return value
         auto array = new T[arrayHeight * arrayWidth];
 
+        // Create the UntypedSharedPtr (before the copy, which may throw)
+        UntypedSharedPtr result{
+            std::make_shared<UntypedSharedPtr::Model<const T[]>>(array)};
+
         // Copy its content
         size_t addressH = address / (this->width - arrayWidth + 1);
         size_t addressW = address % (this->width - arrayWidth + 1);
@@ -318,9 +322,6 @@ namespace Data {
             }
         }
 
-        // Create the UntypedSharedPtr
-        UntypedSharedPtr result{
-            std::make_shared<UntypedSharedPtr::Model<const T[]>>(array)};
         return result;
     }
 
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ffcfa63..9c20ffc 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -347,14 +347,15 @@ namespace Data {
         size_t arraySize = this->nbElements - this->getAddressSpace(type) + 1;
         T* array = new T[arraySize];
 
+        // Create the UntypedSharedPtr (before the copy, which may throw)
+        UntypedSharedPtr result{
+            std::make_shared<UntypedSharedPtr::Model<const T[]>>(array)};
+
         // Copy its content
         for (size_t idx = 0; idx < arraySize; idx++) {
             array[idx] = this->containerPtr->at(address + idx);
         }
 
-        // Create the UntypedSharedPtr
-        UntypedSharedPtr result{
-            std::make_shared<UntypedSharedPtr::Model<const T[]>>(array)};
         return result;
     }
 
-- 
2.43.0


From 7e7f266d5af1a585c5e33c0480916aefcc35cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 36/37] fix: dates written in files by several threads shared
 the buffer of std::localtime

---
 gegelatilib/src/util/timestamp.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/util/timestamp.cpp b/gegelatilib/src/util/timestamp.cpp
index b8a8ff2..2f5c524 100644
--- a/gegelatilib/src/util/timestamp.cpp
+++ b/gegelatilib/src/util/timestamp.cpp
@@ -43,8 +43,16 @@ std::string Util::getCurrentDate()
     std::time_t now =
         std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
 
+    // std::localtime shares its result between threads.
+    std::tm date;
+#ifdef _WIN32
+    localtime_s(&date, &now);
+#else
+    localtime_r(&now, &date);
+#endif
+
     char buf[20] = {0};
-    std::strftime(buf, sizeof(buf), "%Y-%m-%d %T", std::localtime(&now));
+    std::strftime(buf, sizeof(buf), "%Y-%m-%d %T", &date);
 
     return std::string(buf);
 }
-- 
2.43.0


From 008ec35962afa3ae5415d5f586cf9fa374102f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 37/37] fix: release the program being imported when its dot
 file is ill-formed

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 15d6748..e17c8e7 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -174,7 +174,8 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
             pos1 = this->lastLine.find("|", pos);
         }
         // create new program with the correct amount of constants
-        Program::Program* p = new Program::Program(this->tpg.getEnvironment());
+        auto p =
+            std::make_shared<Program::Program>(this->tpg.getEnvironment());
         // set the previously read constants
         for (int i = 0; i < v_constant.size(); i++) {
             p->getConstantHandler().setDataAt(typeid(Data::Constant), i,
-- 
2.43.0

