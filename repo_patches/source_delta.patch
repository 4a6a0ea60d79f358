From 7b822f2572a6f16c0133db8cfaed2946aaf2ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:49 +0000
Subject: [PATCH 01/18] fix: decision tree node predicts the majority class

The constructor looked for the largest count in the moved-from parameter, so
every node predicted the first class.
---
 src/models/impl/DecisionTreeImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..68f8f48 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -238,10 +238,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
       right(nullptr)
 {
   // Find predicted class as the maximum element in the
-  // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // count_per_class. The parameter has been moved from, use the member.
+  const auto &counts = this->count_per_class;
+  int idx = std::distance(counts.begin(),
+                          std::max_element(counts.begin(), counts.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From 07708cb0beccf78cde9decaf2a9c5ff5a2666b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:49 +0000
Subject: [PATCH 02/18] fix: separate stored dataset features by a space

Datasets with two or more features could not be loaded back.
---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..5588c46 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -101,8 +101,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From 618d954de3d2b37b8897ea81fc637356417238c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 03/18] fix: store datasets and models, and compile trees, with
 exact values

The default precision of 6 digits changes features, metrics and thresholds,
e.g. features 1000000 and 1000001 are both stored as 1e+06.
---
 src/Dataset.cpp                      | 6 ++++++
 src/models/impl/DecisionTreeImpl.cpp | 5 +++++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 5588c46..03920aa 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,9 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Print enough digits to load back the exact same values.
+  const auto precision =
+      os.precision(std::numeric_limits<double>::max_digits10);
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -109,6 +114,7 @@ void Apollo::Dataset::store(std::ostream &os)
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 68f8f48..15b60ef 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -128,6 +129,8 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
+  // Print enough digits to compile in the exact same thresholds.
+  sstream.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
@@ -182,6 +185,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Print enough digits to load back the exact same values.
+  ofs.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..cca32e2 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -103,6 +104,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Print enough digits to load back the exact same values.
+  ofs.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From 32cf20135793e95d9e1ca2a340242b931f85c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 04/18] fix: retraining or reloading a random forest replaces
 its trees

The trees were appended, so the forest voted with outdated trees and the
stored file had more trees than its num_trees, which cannot be loaded.
---
 src/models/impl/RandomForestImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index cca32e2..4e959ed 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -35,6 +35,8 @@ void RandomForestImpl::train(std::vector<std::vector<float>> &features,
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
 
+  // Training replaces any trees of an earlier training or load.
+  rfc.clear();
   for (unsigned i = 0; i < num_trees; i++) {
     std::vector<std::vector<float>> sample_features;
     std::vector<int> sample_responses;
@@ -155,6 +157,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Loading replaces any trees of an earlier training or load.
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From ccfd210a4fd14d8e4d1e94e477006677ea64344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 05/18] fix: single-model training skips empty data and
 untrainable models

Training with no measurements crashed in the model, and models which have
been trained or loaded were trained again.
---
 src/Apollo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..0189b5b 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // There is nothing to train on.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
@@ -499,7 +502,7 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       Region *reg = it.second;
       // XXX: assumes all regions have the same model name, number of
       // features, number of policies, model_params
-      reg->model->train(merged_dataset);
+      if (reg->model->isTrainable()) reg->model->train(merged_dataset);
     }
   } else {
     for (auto &it : regions) {
-- 
2.43.0


From 586d7c25aa80eef075c9ae350fa9c3bdd8a9bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 06/18] fix: loading a PolicyNet drops the cached action
 probabilities

Features evaluated before the load kept the probabilities of the old network.
---
 src/models/PolicyNet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..7ee4c08 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -682,6 +682,9 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&trainCount, sizeof(int));
 
   f.close();
+
+  // The cached probabilities are outdated.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From 837ba91202f2a265827c8d41ff45090561fe1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 07/18] fix: qualify ModelFactory in Region.cpp for OpenCV
 builds

Region.cpp did not compile with ENABLE_OPENCV.
---
 src/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..7a8f73f 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -80,7 +80,7 @@ void Apollo::Region::train(int step, bool doCollectPendingContexts, bool force)
 
   if (Config::APOLLO_RETRAIN_ENABLE)
 #ifdef ENABLE_OPENCV
-    time_model = ModelFactory::createRegressionTree(dataset);
+    time_model = apollo::ModelFactory::createRegressionTree(dataset);
 #else
     throw std::runtime_error("Retraining requires OpenCV");
 #endif
-- 
2.43.0


From dbf46c6b0bcd7b05314ca369226729b3759cf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 08/18] fix: loading a decision tree validates and replaces

Reject predicted classes and feature indexes out of range: they were returned
as a policy, or used to index the vote counts of a forest. Do not keep classes
and data of an earlier training.
---
 src/models/impl/DecisionTreeImpl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 15b60ef..df8231b 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -57,6 +57,7 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
 {
   // Assumes all feature vectors are of equal size.
   num_features = features.begin()->size();
+  classes.clear();
   classes.insert(responses.begin(), responses.end());
   data.clear();
   for (size_t i = 0, end = features.size(); i < end; ++i)
@@ -568,6 +569,13 @@ DecisionTreeImpl::Node *DecisionTreeImpl::parse_node(Parser &parser)
   parseKeyVal(parser, "feature_idx:", feature_idx);
   parseKeyVal(parser, "threshold:", threshold);
 
+  if (predicted_class < 0 || predicted_class >= (int)num_classes)
+    throw std::runtime_error("Invalid predicted_class " +
+                             std::to_string(predicted_class));
+  if (feature_idx < -1 || feature_idx >= (int)num_features)
+    throw std::runtime_error("Invalid feature_idx " +
+                             std::to_string(feature_idx));
+
   parser.getNextToken();
   parser.parseExpected("count_per_class:");
   parser.getNextToken();
@@ -610,6 +618,10 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
   parser.getNextToken();
   parser.parseExpected("{");
 
+  // Loading replaces the tree and data of an earlier training or load.
+  classes.clear();
+  data.clear();
+
   parseKeyVal(parser, "max_depth:", max_depth);
 
   parser.getNextToken();
-- 
2.43.0


From 2178d69c15b7519cd988ec005696192f144d9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 09/18] fix: decision tree threshold separates adjacent feature
 values

The mean rounded to the left value (or overflowed), so samples left of the
split were evaluated to the right.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index df8231b..dcef4b5 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -361,7 +361,11 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       min_gini = g;
       split_it = It;
       split_feature_idx = feature_idx;
-      split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      split_threshold = ((double)feature_val_left + feature_val_right) / 2.0;
+      // The mean of adjacent floats may round to the left value, which must
+      // compare less than the threshold.
+      if (split_threshold <= feature_val_left)
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 8f52007f75a7564a3857d6bc626d3ad1c61a9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 10/18] fix: loading a decision tree compiles it in JIT builds

After load, predict called the function of the previous tree, or an
uninitialized pointer.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index dcef4b5..7d346eb 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -41,9 +41,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -257,6 +254,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From 63aac76b4e4ee9a9d45f6e4a8fddbe4d8fec518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 11/18] fix: retraining a JIT decision tree links the new
 function

The library of the earlier tree has the same path and stayed open, so dlopen
returned it and predict kept evaluating the earlier tree.
---
 src/models/impl/DecisionTreeImpl.cpp | 8 +++++---
 src/models/impl/DecisionTreeImpl.h   | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 7d346eb..5dc1223 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -150,13 +150,15 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
                         sstream.str() + std::string("EOF\n");
   system(command.c_str());
   // pclose(popen(command.c_str(), "r"));
-  void *dynamic_linker = dlopen(shared_library_name.c_str(), RTLD_NOW);
-  if (!dynamic_linker) {
+  // Close the library of an earlier tree, otherwise dlopen returns it again.
+  if (jit_library) dlclose(jit_library);
+  jit_library = dlopen(shared_library_name.c_str(), RTLD_NOW);
+  if (!jit_library) {
     std::cerr << "dlopen: " << dlerror() << std::endl;
     abort();
   }
   jit_evaluate_function =
-      (int (*)(const std::vector<float> &))dlsym(dynamic_linker,
+      (int (*)(const std::vector<float> &))dlsym(jit_library,
                                                  function_name.c_str());
   if (!jit_evaluate_function) {
     std::cerr << "dlsym: " << dlerror() << std::endl;
diff --git a/src/models/impl/DecisionTreeImpl.h b/src/models/impl/DecisionTreeImpl.h
index 436855a..deb81a1 100644
--- a/src/models/impl/DecisionTreeImpl.h
+++ b/src/models/impl/DecisionTreeImpl.h
@@ -85,6 +85,7 @@ private:
   void compile_and_link_jit_evaluate_function();
   void generate_source(Node &node, OutputFormatter &source_code);
   int (*jit_evaluate_function)(const std::vector<float> &features);
+  void *jit_library = nullptr;
 
   // Returns tuple(min gini, iterator to split, feature index of split)
   template <typename Iterator>
-- 
2.43.0


From 9b6a3c2a48fb09b66c9f1dfd4af8cf2f70f2cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 12/18] fix: JIT decision trees of different processes use
 different files

Processes running at the same time overwrote and removed each other's
libraries, and could link the tree of another process.
---
 src/models/impl/DecisionTreeImpl.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 5dc1223..25896da 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -6,6 +6,7 @@
 #include "DecisionTreeImpl.h"
 
 #include <dlfcn.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cassert>
@@ -24,6 +25,12 @@
 
 int DecisionTreeImpl::unique_counter = 0;
 
+// Processes (e.g., MPI ranks on the same node) share /tmp.
+static std::string jit_function_name(unsigned id)
+{
+  return "_jit_eval_" + std::to_string(getpid()) + "_" + std::to_string(id);
+}
+
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::istream &is)
     : num_classes(num_classes)
 {
@@ -122,8 +129,7 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+  std::string function_name = jit_function_name(unique_id);
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
@@ -172,8 +178,7 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 
 DecisionTreeImpl::~DecisionTreeImpl()
 {
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+  std::string function_name = jit_function_name(unique_id);
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::remove(shared_library_name.c_str());
-- 
2.43.0


From 6237a3e837fff1304d9f720be53b1decaf99337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 13/18] fix: terminate Kokkos variable names of 64 or more
 characters

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..35317e3 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -427,6 +427,7 @@ extern "C" void kokkosp_declare_output_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -439,6 +440,7 @@ extern "C" void kokkosp_declare_input_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 08c3483061cdf9dccc9552fa1356da215480fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 14/18] fix: Kokkos range candidates lie in the declared range

The candidates of a range with closed lower bound missed the bound and exceeded
the upper bound; with an open one they included the excluded bound. Start where
count_range_slices starts counting.
---
 src/connectors/kokkos/kokkos-connector.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 35317e3..289fd8d 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -165,9 +165,8 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
   if (info->type == ValueType::kokkos_value_int64) {
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
-          (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+          (with_this.openLower ? (with_this.lower.int_value + 1)
+                               : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
@@ -175,8 +174,8 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
   } else if (info->type == ValueType::kokkos_value_double) {
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
+          (with_this.openLower ? (with_this.lower.double_value + epsilon)
+                               : with_this.lower.double_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.double_value = lower + (x * with_this.step.double_value);
       fill_this[x] = mvv(id, value, info);
-- 
2.43.0


From e411e111b1965b465d435886690c87600d733980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 15/18] fix: the Kokkos connector loads stored models

The file name was passed as the model information: the second run of an
application aborted with an invalid model.
---
 src/connectors/kokkos/kokkos-connector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 289fd8d..c4e1abf 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -551,6 +551,7 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
+                                  "RandomForest",
                                   final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
-- 
2.43.0


From 737439c724feefa5ed9e3a1d330bd4c198a7f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 16/18] fix: do not divide by zero for Kokkos variables without
 candidates

---
 src/connectors/kokkos/kokkos-connector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index c4e1abf..46daf4f 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -519,6 +519,10 @@ extern "C" void kokkosp_request_values(
     auto *metadata = reinterpret_cast<VariableDatabaseData *>(
         tuningValues[x].metadata->toolProvidedInfo);
     auto set_size = metadata->candidate_set_size;
+    if (set_size <= 0) {
+      printf("Apollo Tuner: no candidates to choose from\n");
+      return;
+    }
     if (choiceSpaceSize > max_choices / set_size) {
       printf("Apollo Tuner: too many choices\n");
     }
-- 
2.43.0


From 2c6f0026ade7dcc47871de7c89026dbbfc31dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 17/18] fix: do not overflow the variable set of a Kokkos
 tuning problem

---
 src/connectors/kokkos/kokkos-connector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 46daf4f..769e260 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -528,6 +528,10 @@ extern "C" void kokkosp_request_values(
     }
     choiceSpaceSize *= set_size;
   }
+  if (numContextVariables + numTuningVariables > max_variables) {
+    printf("Apollo Tuner: too many variables\n");
+    return;
+  }
   variableSet tuningProblem;
   int numValidVariables = 0;
   for (int x = 0; x < numContextVariables; ++x) {
-- 
2.43.0


From 5b13dd23cf031904d8c69a86ff73e8db31fca305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:25 +0000
Subject: [PATCH 18/18] fix: loading a model in OpenCV builds keeps the loaded
 model

---
 src/models/DecisionTree.cpp | 5 +++++
 src/models/RandomForest.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/models/DecisionTree.cpp b/src/models/DecisionTree.cpp
index 06d72d9..7f554bc 100644
--- a/src/models/DecisionTree.cpp
+++ b/src/models/DecisionTree.cpp
@@ -122,7 +122,12 @@ int DecisionTree::getIndex(std::vector<float> &features)
 void DecisionTree::load(const std::string &filename)
 {
   trainable = false;
+#ifdef ENABLE_OPENCV
+  // The OpenCV load is static and returns the loaded model.
+  dtree = DTrees::load(filename);
+#else
   dtree->load(filename);
+#endif
 }
 void DecisionTree::store(const std::string &filename) { dtree->save(filename); }
 
diff --git a/src/models/RandomForest.cpp b/src/models/RandomForest.cpp
index 4267c3c..5a938c5 100644
--- a/src/models/RandomForest.cpp
+++ b/src/models/RandomForest.cpp
@@ -126,7 +126,12 @@ int RandomForest::getIndex(std::vector<float> &features)
 void RandomForest::load(const std::string &filename)
 {
   trainable = false;
+#ifdef ENABLE_OPENCV
+  // The OpenCV load is static and returns the loaded model.
+  rfc = RTrees::load(filename);
+#else
   rfc->load(filename);
+#endif
 }
 void RandomForest::store(const std::string &filename) { rfc->save(filename); }
 
-- 
2.43.0

