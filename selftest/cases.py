"""(property, expected verdict, name, [(file, old text, new text)])"""
R = "src/Region.cpp"
CASES = []


def bad(pid, name, *edits):
    CASES.append((pid, "bad", name, list(edits)))


def quiet(pid, name, *edits):
    CASES.append((pid, "quiet", name, list(edits)))


# ---------------------------------------------------------------- C01
bad("C01", "cached-choice", (R, "int choice = model->getIndex(context->features);",
                             "int choice = context->idx ? context->policy : model->getIndex(context->features);"))
bad("C01", "sync-features-kept", (R, "      context->features.clear();\n", ""))
bad("C01", "policy-clamped", (R, "  context->policy = choice;\n  return choice;",
                              "  context->policy = choice % num_policies;\n  return choice;"))
bad("C01", "begin-idx-late", (R, "  context->idx = this->idx;\n  this->idx++;", "  this->idx++;\n  context->idx = this->idx;"))
bad("C01", "feature-zero-skipped", (R, "  context->features.push_back(value);", "  if (value != 0) context->features.push_back(value);"))
quiet("C01", "helper-extracted", (R, "int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n  int choice = model->getIndex(context->features);",
      "static int ask(apollo::PolicyModel &m, Apollo::RegionContext &c)\n{\n  auto &feats = c.features;\n  return m.getIndex(feats);\n}\n\nint Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n  int choice = ask(*model, *context);"))
quiet("C01", "emplace", (R, "  context->features.push_back(value);", "  auto &fs = context->features;\n  fs.emplace_back(value);"))
quiet("C01", "if-instead-of-switch", (R, "  context->idx = this->idx;\n  this->idx++;", "  context->idx = this->idx++;"))

# ---------------------------------------------------------------- C02
bad("C02", "untrainable-only", (R, "if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())", "if (model->isTrainable())"))
bad("C02", "insert-after-train", (R, "    dataset.insert(context->features, context->policy, metric);", "    if (metric > 0) dataset.insert(context->features, context->policy, metric);"))
bad("C02", "first-done-only", (R, "      collectContext(context, metric);\n      return true;", "      collectContext(context, metric);\n      return metric > 0;"))
bad("C02", "dtor-once", (R, "  while (pending_contexts.size() > 0)\n    collectPendingContexts();", "  collectPendingContexts();"))
bad("C02", "dtor-leaves-one", (R, "while (pending_contexts.size() > 0)", "while (pending_contexts.size() > 1)"))
bad("C02", "sync-stays", (R, "    collectContext(context, metric);\n    return;\n  }\n  pending_contexts", "    collectContext(context, metric);\n  }\n  pending_contexts"))
bad("C02", "counted-only-if-recorded", (R, "    dataset.insert(context->features, context->policy, metric);\n\n  apollo->region_executions++;",
    "  {\n    dataset.insert(context->features, context->policy, metric);\n\n  apollo->region_executions++;\n  }"))
quiet("C02", "counter-first", (R, "  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n    dataset.insert(context->features, context->policy, metric);\n\n  apollo->region_executions++;\n",
      "  apollo->region_executions += 1;\n  const bool keep = model->isTrainable() || Config::APOLLO_PERSISTENT_DATASETS != 0;\n  if (keep) {\n    auto &f = context->features;\n    dataset.insert(f, context->policy, metric);\n  }\n"))
quiet("C02", "empty", (R, "while (pending_contexts.size() > 0)", "while (!pending_contexts.empty())"))
quiet("C02", "rewritten-collect", (R, """  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());""", """  std::vector<Apollo::RegionContext *> left;
  for (auto *c : pending_contexts)
    if (!isDone(c)) left.push_back(c);
  pending_contexts.swap(left);"""))
quiet("C02", "iterator-erase", (R, """  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());""", """  for (auto it = pending_contexts.begin(); it != pending_contexts.end();) {
    if (isDone(*it))
      it = pending_contexts.erase(it);
    else
      ++it;
  }"""))
quiet("C02", "end-restructured", (R, "  pending_contexts.push_back(context);\n  collectPendingContexts();\n}", "  else {\n  pending_contexts.push_back(context);\n  collectPendingContexts();\n  }\n}"))

# ---------------------------------------------------------------- C03
D = "src/Dataset.cpp"
INS = """  auto it = data.find(key);
  if (it == data.end())
    data.emplace(std::move(key), metric);
  else
    // Exponential moving average (a=0.5) to update the metric.
    it->second = .5 * it->second + .5 * metric;"""
bad("C03", "ema-weights", (D, ".5 * it->second + .5 * metric", ".25 * it->second + .75 * metric"))
bad("C03", "keep-first", (D, INS, "  data.emplace(std::move(key), metric);"))
bad("C03", "keep-last", (D, INS, "  data[key] = metric;"))
bad("C03", "merge-moves", (D, "    auto features = d.first.first;\n    auto policy", "    auto &features = const_cast<std::vector<float> &>(d.first.first);\n    auto policy"))
bad("C03", "ema-only-smaller", (D, "  else\n    // Exp", "  else if (metric < it->second)\n    // Exp"))
bad("C03", "export-swapped", (D, "const auto &metric = d.second;\n    vector.push_back(std::make_tuple(features, policy, metric));", "const auto &metric = d.first.second;\n    vector.push_back(std::make_tuple(features, policy, metric));"))
quiet("C03", "emplace-result", (D, INS, "  auto r = data.emplace(std::move(key), metric);\n  if (!r.second) r.first->second = (r.first->second + metric) / 2;"))
quiet("C03", "lower-level", (D, INS, "  if (data.count(key)) {\n    double &m = data[key];\n    m = 0.5 * (m + metric);\n  } else\n    data[key] = metric;"))
quiet("C03", "no-move", (D, "std::make_pair(std::move(features), policy)", "std::make_pair(features, policy)"))
quiet("C03", "iterator-loop", (D, "  for (auto &d : ds.data) {\n    auto features = d.first.first;", "  for (auto it = ds.data.begin(); it != ds.data.end(); ++it) {\n    auto &d = *it;\n    auto features = d.first.first;"))
quiet("C03", "reserve", (D, "    vector.push_back(std::make_tuple(features, policy, metric));", "    vector.emplace_back(features, policy, metric);"))
# ---------------------------------------------------------------- C04
BEST = """      double prev_avg = best_policies[features].second;
      if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);"""
bad("C04", "max", (D, "avg < prev_avg", "avg > prev_avg"))
bad("C04", "metric-not-updated", (D, BEST, BEST.replace("best_policies[features] = std::make_pair(policy, avg)", "best_policies[features].first = policy")))
bad("C04", "skip-first", (D, "  for (auto &d : data) {\n    const auto &features = d.first.first;\n    const auto &policy = d.first.second;\n    const auto &avg", "  for (auto &d : data) {\n    if (d.second <= 0) continue;\n    const auto &features = d.first.first;\n    const auto &policy = d.first.second;\n    const auto &avg"))
bad("C04", "tolerance", (D, "avg < prev_avg", "avg < 0.95 * prev_avg"))
bad("C04", "map-default", ("src/models/DatasetMap.cpp", "    abort();", "    return 0;"))
quiet("C04", "iter-update", (D, BEST, "      auto &cur = iter->second;\n      if (avg < cur.second) {\n        cur.first = policy;\n        cur.second = avg;\n      }"))
quiet("C04", "leq", (D, "avg < prev_avg", "avg <= prev_avg"))
quiet("C04", "continue-form", (D, "      if (avg < prev_avg) best", "      if (!(prev_avg > avg)) continue;\n      best"))
quiet("C04", "direct-assign", (D, "      best_policies.insert(\n          std::make_pair(features, std::make_pair(policy, avg)));", "      best_policies[features] = {policy, avg};"))
quiet("C04", "map-find", ("src/models/DatasetMap.cpp", "  if (best_policies.count(features) == 0) {", "  auto it = best_policies.find(features);\n  if (it == best_policies.end()) {"), ("src/models/DatasetMap.cpp", "best_policies[features].first", "it->second.first"))
# ---------------------------------------------------------------- C05
RR = "src/models/RoundRobin.cpp"
RB = "  int choice = (last_policy + 1) % policy_count;\n  last_policy = choice;\n  return choice;\n"
bad("C05", "rr-skips-last", (RR, "(last_policy + 1) % policy_count", "(last_policy + 1) % (policy_count > 1 ? policy_count - 1 : 1)"))
bad("C05", "rr-starts-one", (RR, "last_policy = -1;", "last_policy = 0;"))
bad("C05", "rr-by-two", (RR, "(last_policy + 1) % policy_count", "(last_policy + 2) % policy_count"))
bad("C05", "rr-sticks", (RR, "  last_policy = choice;\n", "  if (!features.empty()) last_policy = choice;\n"))
bad("C05", "rand-range", ("src/models/Random.cpp", "(0, policy_count - 1)", "(0, policy_count)"))
bad("C05", "rand-low", ("src/models/Random.cpp", "(0, policy_count - 1)", "(1, policy_count - 1)"))
bad("C05", "rand-two", ("src/models/Random.cpp", "policy_count > 1", "policy_count > 2"))
bad("C05", "static-clamped", ("src/models/Static.cpp", "return policy_choice;", "return policy_choice < policy_count ? policy_choice : 0;"))
bad("C05", "optimal-keeps-last", ("src/models/Optimal.cpp", "  optimal_policy.pop_front();", "  if (optimal_policy.size() > 1) optimal_policy.pop_front();"))
bad("C05", "optimal-skips-neg", ("src/models/Optimal.cpp", "Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n\n  while (std::getline(infile, policy_str, ','))\n", "Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n\n  while (std::getline(infile, policy_str, ','))\n    if (policy_str.size() < 3)\n"))
quiet("C05", "rr-compare", (RR, RB, "  ++last_policy;\n  if (last_policy >= policy_count) last_policy = 0;\n  return last_policy;\n"))
quiet("C05", "rr-next", (RR, RB, "  const int next = last_policy;\n  last_policy = (next + 1) % policy_count;\n  return next;\n"), (RR, "last_policy = -1;", "last_policy = 0;"))
quiet("C05", "rr-eq", (RR, RB, "  int choice = last_policy + 1;\n  if (choice == policy_count)\n    choice = 0;\n  last_policy = choice;\n  return choice;\n"))
quiet("C05", "rr-count", (RR, RB, "  return ++last_policy % policy_count;\n"))
quiet("C05", "rand-init-list", ("src/models/Random.cpp", "Random::Random(int num_policies) : PolicyModel(num_policies, \"Random\")\n{\n  random_gen = std::mt19937(random_dev());\n  random_dist = std::uniform_int_distribution<>(0, policy_count - 1);\n", "Random::Random(int num_policies)\n    : PolicyModel(num_policies, \"Random\"),\n      random_gen(random_dev()),\n      random_dist(0, num_policies - 1)\n{\n"))
quiet("C05", "rand-early", ("src/models/Random.cpp", "  int choice = 0;\n\n  if (policy_count > 1) {", "  int choice = 0;\n  if (policy_count <= 1) return choice;\n  if (true) {"))
quiet("C05", "optimal-ctor-load", ("src/models/Optimal.cpp", """Optimal::Optimal(std::string file) : PolicyModel(0, "Optimal")
{
  std::ifstream infile(file);
  std::string policy_str;

  while (std::getline(infile, policy_str, ','))
    optimal_policy.push_back(std::stoi(policy_str));

  infile.close();
}""", """Optimal::Optimal(std::string file) : PolicyModel(0, "Optimal") { load(file); }"""))
quiet("C05", "optimal-size", ("src/models/Optimal.cpp", "optimal_policy.empty()", "optimal_policy.size() == 0"))
quiet("C05", "optimal-erase", ("src/models/Optimal.cpp", "optimal_policy.pop_front();", "optimal_policy.erase(optimal_policy.begin());"))
# ---------------------------------------------------------------- C06
DT, RF = "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp"
bad("C06", "load-keeps-exploring", (DT, "  trainable = false;\n#ifdef ENABLE_OPENCV\n  // The", "#ifdef ENABLE_OPENCV\n  // The"))
bad("C06", "train-keeps-exploring", (RF, "#endif\n\n  trainable = false;\n", "#endif\n\n  if (responses.size() > 1) trainable = false;\n"))
bad("C06", "path-ctor-trainable", (DT, '"DecisionTree"), trainable(false)', '"DecisionTree"), trainable(true)'))
bad("C06", "cv-load-lost", (RF, "  rfc = RTrees::load(filename);", "  rfc->load(filename);"))
bad("C06", "rf-swapped", (RF, "(num_policies, num_trees, max_depth);", "(num_policies, max_depth, num_trees);"))
bad("C06", "default-zero", (DT, "  return explorer->getIndex(features);", "  return features.empty() ? 0 : explorer->getIndex(features);"))
bad("C06", "net-off", ("src/models/PolicyNet.cpp", "  // The cached probabilities are outdated.\n", "  trainable = false;\n"))
quiet("C06", "ternary", (DT, "  if (!trainable) return dtree->predict(features);\n\n  return explorer->getIndex(features);", "  return isTrainable() ? explorer->getIndex(features)\n                       : dtree->predict(features);"))
quiet("C06", "late-flag", (RF, "  trainable = false;\n#ifdef ENABLE_OPENCV\n  // The OpenCV load is static and returns the loaded model.\n  rfc = RTrees::load(filename);\n#else\n  rfc->load(filename);\n#endif\n", "#ifdef ENABLE_OPENCV\n  rfc = RTrees::load(filename);\n#else\n  rfc->load(filename);\n#endif\n  trainable = false;\n"))
quiet("C06", "unique-ptr-new", (DT, "  dtree = std::make_unique<DecisionTreeImpl>(num_policies, max_depth);", "  dtree.reset(new DecisionTreeImpl(policy_count, max_depth));"))

# ---------------------------------------------------------------- C07
D = "src/models/impl/DecisionTreeImpl.cpp"
bad("C07", "le-threshold", (D, "if (features[tree.feature_idx] < tree.threshold)", "if (features[tree.feature_idx] <= tree.threshold)"))
bad("C07", "depth-off", (D, "if (depth >= max_depth) return node;", "if (depth > max_depth) return node;"))
bad("C07", "depth-start", (D, "                    /* depth */ 0);\n\n#ifdef ENABLE_JIT_DTREE\n  compile_and_link_jit_evaluate_function();\n#endif\n}\n\nDecisionTreeImpl::DecisionTreeImpl(int num_classes,\n                                   std::vector<std",
                           "                    /* depth */ 1);\n\n#ifdef ENABLE_JIT_DTREE\n  compile_and_link_jit_evaluate_function();\n#endif\n}\n\nDecisionTreeImpl::DecisionTreeImpl(int num_classes,\n                                   std::vector<std"))
bad("C07", "small-node-leaf", (D, "if (Begin == End) return node;", "if (size < 4) return node;"))
bad("C07", "gini-eps", (D, "if (gini_score <= 0.0f) return node;", "if (gini_score <= 0.05f) return node;"))
bad("C07", "unsorted-split", (D, "return x.first[split_feature_idx] < y.first[split_feature_idx];", "return x.first[0] < y.first[0];"))
bad("C07", "rounding", (D, "      if (split_threshold <= feature_val_left)\n        split_threshold = feature_val_right;\n", ""))
bad("C07", "unweighted", (D, "(idx * left_gini_score + (size - idx) * right_gini_score) / size;", "(left_gini_score + right_gini_score) / 2;"))
bad("C07", "wrong-weights", (D, "(idx * left_gini_score + (size - idx) * right_gini_score) / size;", "((size - idx) * left_gini_score + idx * right_gini_score) / size;"))
quiet("C07", "threshold-left", (D, "split_threshold = ((double)feature_val_left + feature_val_right) / 2.0;", "split_threshold = feature_val_left;"))
bad("C07", "last-gap", (D, "for (Iterator It = std::next(Begin); It != End; ++It) {", "for (Iterator It = std::next(Begin); It != std::prev(End); ++It) {"))
bad("C07", "max-gini-half", (D, "float min_gini = 1.0f;", "float min_gini = 0.5f;"))
bad("C07", "old-classes", (D, "  classes.clear();\n  classes.insert(responses.begin(), responses.end());\n  data.clear();", "  classes.insert(responses.begin(), responses.end());\n  data.clear();"))
bad("C07", "old-data", (D, "  data.clear();\n  for (size_t i = 0, end = features.size()", "  for (size_t i = 0, end = features.size()"))
bad("C07", "min-class", (D, "std::max_element(counts.begin(), counts.end())", "std::min_element(counts.begin(), counts.end())"))
bad("C07", "jit-le", (D, "\"] < \" & node.threshold", "\"] <= \" & node.threshold"))
bad("C07", "jit-digits", (D, "  sstream.precision(std::numeric_limits<double>::max_digits10);\n", ""))
bad("C07", "jit-stale", (D, "  if (jit_library) dlclose(jit_library);\n", ""))
bad("C07", "jit-name", (D, "return \"_jit_eval_\" + std::to_string(getpid()) + \"_\" + std::to_string(id);", "return \"_jit_eval_\" + std::to_string(getpid());"))
bad("C07", "first-feature-only", (D, "feature_idx < num_features; ++feature_idx) {\n    // Sort", "feature_idx < num_features - 1; ++feature_idx) {\n    // Sort"))
quiet("C07", "less-form", (D, "if (g >= min_gini) continue;\n      min_gini = g;", "if (!(g < min_gini)) continue;\n      min_gini = g;"))
quiet("C07", "remaining", (D, "if (depth >= max_depth) return node;", "if (max_depth <= depth) return node;"))
quiet("C07", "size-var", (D, "if (Begin == End) return node;", "if (size <= 1) return node;"))
quiet("C07", "gini-helper", (D, "      float g =\n          (idx * left_gini_score + (size - idx) * right_gini_score) / size;", "      auto weigh = [&](float a, float b) { return (idx * a + (size - idx) * b) / size; };\n      float g = weigh(left_gini_score, right_gini_score);"))
quiet("C07", "iterative-eval", (D, "  // leaf node, return predicted class.\n  if (tree.feature_idx == -1) return tree.predicted_class;\n\n  if (features[tree.feature_idx] < tree.threshold) {\n    if (tree.left) return evaluate_tree(*tree.left, features);\n  } else if (tree.right)\n    return evaluate_tree(*tree.right, features);\n  return tree.predicted_class;",
      "  const Node *n = &tree;\n  while (n->feature_idx != -1) {\n    const Node *next = features[n->feature_idx] < n->threshold ? n->left : n->right;\n    if (!next) break;\n    n = next;\n  }\n  return n->predicted_class;"))
quiet("C07", "one-if", (D, "  if (features[tree.feature_idx] < tree.threshold) {\n    if (tree.left) return evaluate_tree(*tree.left, features);\n  } else if (tree.right)\n    return evaluate_tree(*tree.right, features);\n  return tree.predicted_class;",
      "  const Node *next = features[tree.feature_idx] >= tree.threshold ? tree.right : tree.left;\n  return next ? evaluate_tree(*next, features) : tree.predicted_class;"))
quiet("C07", "index-loops", (D, "    for (auto It = Begin; It != End; ++It) {\n      int data_cls = It->second;\n      if (data_cls == cls) count++;\n    }\n\n    count_per_class.push_back(count);",
      "    count = std::count_if(Begin, End, [cls](const auto &s) { return s.second == cls; });\n    count_per_class.push_back(count);"))
quiet("C07", "shared-init", (D, "  classes.clear();\n  classes.insert(responses.begin(), responses.end());\n  data.clear();", "  classes = std::set<int>(responses.begin(), responses.end());\n  data.clear();\n  data.reserve(features.size());"))

# ---------------------------------------------------------------- C08
F = "src/models/impl/RandomForestImpl.cpp"
bad("C08", "old-trees-kept", (F, "  // Training replaces any trees of an earlier training or load.\n  rfc.clear();\n", ""))
bad("C08", "draw-range", (F, "uniform_dist(0, features.size() - 1);", "uniform_dist(0, features.size());"))
bad("C08", "draw-range-short", (F, "uniform_dist(0, features.size() - 1);", "uniform_dist(1, features.size() - 1);"))
bad("C08", "unpaired", (F, "      sample_responses.push_back(responses[sample_idx]);", "      sample_responses.push_back(responses[i]);"))
bad("C08", "redrawn", (F, "      sample_responses.push_back(responses[sample_idx]);", "      sample_responses.push_back(responses[uniform_dist(generator)]);"))
bad("C08", "class0", (F, "for (size_t i = 0; i < num_classes; ++i)\n    count_per_class[i] = 0;", "for (size_t i = 1; i < num_classes; ++i)\n    count_per_class[i] = 0;"))
bad("C08", "last-class", (F, "for (size_t i = 1; i < num_classes; ++i)\n    if", "for (size_t i = 1; i < num_classes - 1; ++i)\n    if"))
bad("C08", "minority", (F, "count_per_class[i] > count_per_class[class_idx]", "count_per_class[i] < count_per_class[class_idx]"))
bad("C08", "one-tree-less", (F, "for (unsigned i = 0; i < num_trees; i++) {", "for (unsigned i = 1; i < num_trees; i++) {"))
bad("C08", "vote-weight", (F, "count_per_class[dtree_prediction]++;", "count_per_class[dtree_prediction] = 1;"))
quiet("C08", "vector-votes", (F, "  int count_per_class[num_classes];\n  for (size_t i = 0; i < num_classes; ++i)\n    count_per_class[i] = 0;\n", "  std::vector<int> count_per_class(num_classes, 0);\n"))
quiet("C08", "max-element", (F, "  int class_idx = 0;\n  for (size_t i = 1; i < num_classes; ++i)\n    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;\n\n  return class_idx;",
      "  return std::max_element(count_per_class, count_per_class + num_classes) - count_per_class;"))
quiet("C08", "size_t-idx", (F, "      int sample_idx = uniform_dist(generator);", "      const size_t sample_idx = uniform_dist(generator);"))
quiet("C08", "ctor-delegates", (F, "  // Uniform random generator using Mersenne-Twister for randomness.\n  std::mt19937 generator;\n  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);\n\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;\n    // Random pick with replacement of features, responses\n    for (size_t i = 0, end = features.size(); i < end; ++i) {\n      int sample_idx = uniform_dist(generator);\n      sample_features.push_back(features[sample_idx]);\n      sample_responses.push_back(responses[sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}",
      "  train(features, responses);\n}"))

# ---------------------------------------------------------------- C11
A = "src/Apollo.cpp"
bad("C11", "size-before-pending", (R, "  if (doCollectPendingContexts) collectPendingContexts();\n\n  if (dataset.size() <= 0) return;", "  if (dataset.size() <= 0) return;\n\n  if (doCollectPendingContexts) collectPendingContexts();"))
bad("C11", "force-ignored", (R, "  if (!force)\n    if (!model->isTrainable()) return;", "  if (!model->isTrainable()) return;"))
bad("C11", "few-not-trained", (R, "  if (dataset.size() <= 0) return;", "  if (dataset.size() <= 1) return;"))
bad("C11", "store-before-train", (R, "  model->train(dataset);\n\n  if (Config::APOLLO_RETRAIN_ENABLE)", "  if (Config::APOLLO_RETRAIN_ENABLE)"),
    (R, "    if (Config::APOLLO_RETRAIN_ENABLE) {\n#ifdef ENABLE_OPENCV\n      time_model->store", "    model->train(dataset);\n    if (Config::APOLLO_RETRAIN_ENABLE) {\n#ifdef ENABLE_OPENCV\n      time_model->store"))
bad("C11", "latest-name", (R, "\"/\" + model->name +\n               \"-latest\"", "\"/\" + model->name +\n               \"-last-latest\""))
bad("C11", "no-rank", (R, "        model->name + \"-step-\" + std::to_string(step) + \"-rank-\" +\n        std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";", "        model->name + \"-step-\" + std::to_string(step) + \"-\" + name + \".yaml\";"))
bad("C11", "merge-skips-trained", (A, "      merged_dataset.insert(reg->dataset);", "      if (reg->model->isTrainable()) merged_dataset.insert(reg->dataset);"))
bad("C11", "gather-late", (A, "    gatherCollectiveTrainingData(step);\n  } else {", "    if (step) gatherCollectiveTrainingData(step);\n  } else {"))
bad("C11", "pending-dropped", (A, "      reg->train(step, doCollectPendingContexts);", "      reg->train(step);"))
bad("C11", "untrainable-trained", (A, "if (reg->model->isTrainable()) reg->model->train(merged_dataset);", "reg->model->train(merged_dataset);"))
quiet("C11", "one-condition", (R, "  if (!force)\n    if (!model->isTrainable()) return;", "  const bool proceed = force || model->isTrainable();\n  if (!proceed) return;"))
quiet("C11", "dir-helper", (R, "    std::string filename =\n        Config::APOLLO_OUTPUT_DIR + \"/\" + Config::APOLLO_MODELS_DIR + \"/\" +\n        model->name + \"-step-\"", "    const std::string dir = Config::APOLLO_OUTPUT_DIR + \"/\" + Config::APOLLO_MODELS_DIR + \"/\";\n    std::string filename =\n        dir +\n        model->name + \"-step-\""))
quiet("C11", "kv-loop", (A, "    for (auto &it : regions) {\n      Region *reg = it.second;\n      reg->train(step, doCollectPendingContexts);\n    }", "    for (auto rit = regions.begin(); rit != regions.end(); ++rit)\n      rit->second->train(step, doCollectPendingContexts);"))

# ---------------------------------------------------------------- C12
bad("C12", "reentry", (R, "    apollo->train(apollo->region_executions,\n                  /* doCollectPendingContexts */ false);", "    apollo->train(apollo->region_executions);"))
bad("C12", "train-before-count", (R, "  apollo->region_executions++;\n\n  autoTrain();", "  autoTrain();\n\n  apollo->region_executions++;"))
bad("C12", "min-strict", (R, "min_training_data <= dataset.size())", "min_training_data < dataset.size())"))
bad("C12", "period-off", (R, "(idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0", "(idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 1"))
bad("C12", "dtor-global", (R, "  Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;\n", ""))
bad("C12", "train-before-insert", (R, "  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n    dataset.insert(context->features, context->policy, metric);\n\n  apollo->region_executions++;\n\n  autoTrain();", "  apollo->region_executions++;\n\n  autoTrain();\n  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n    dataset.insert(context->features, context->policy, metric);\n"))
bad("C12", "else-dropped", (R, "  } else if (0 < min_training_data", "  }\n  if (0 < min_training_data"))
quiet("C12", "split-ifs", (R, "  } else if (0 < min_training_data && min_training_data <= dataset.size())\n    train(idx, /* doCollectPendingContexts */ false);", "  } else {\n    const bool enough = min_training_data > 0 && dataset.size() >= min_training_data;\n    if (enough) train(idx, false);\n  }"))
quiet("C12", "lambda-due", (R, "  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&\n      (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {", "  auto due = [](int count, int period) { return period && (count % period) == 0; };\n  if (due(apollo->region_executions, Config::APOLLO_GLOBAL_TRAIN_PERIOD)) {"))

# ---------------------------------------------------------------- C09
S = "src/Dataset.cpp"
bad("C09", "precision", (S, "      os.precision(std::numeric_limits<double>::max_digits10);", "      os.precision(std::numeric_limits<double>::digits10);"))
bad("C09", "glued-features", (S, "      os << float(f) << \", \";", "      os << float(f) << \",\";"))
bad("C09", "no-space-key", (S, "os << \"policy: \" << policy", "os << \"policy:\" << policy"))
bad("C09", "policy-twice", (S, "    os << \"xtime: \" << metric;", "    os << \"xtime: \" << policy;"))
bad("C09", "int-features", (S, "      os << float(f) << \", \";", "      os << int(f) << \", \";"))
bad("C09", "zero-skipped", (S, "    insert(features, policy, xtime);", "    if (xtime > 0) insert(features, policy, xtime);"))
bad("C09", "float-metric", (S, "    double xtime;\n", "    float xtime;\n"), (S, "parser.parse<double>(xtime)", "parser.parse<float>(xtime)"))
bad("C09", "first-entry-only", (S, "  for (auto &d : data) {\n    const auto &features = d.first.first;\n    const auto &policy = d.first.second;\n    const auto &metric = d.second;\n    os <<", "  for (auto &d : data) {\n    const auto &features = d.first.first;\n    const auto &policy = d.first.second;\n    const auto &metric = d.second;\n    if (metric <= 0) continue;\n    os <<"))
bad("C09", "other-file", (R, "                           Config::APOLLO_DATASETS_DIR + \"/Dataset-\" +\n                           std::string(name) + \".yaml\");", "                           Config::APOLLO_DATASETS_DIR + \"/dataset-\" +\n                           std::string(name) + \".yaml\");"))
quiet("C09", "one-chain", (S, "    os << \"policy: \" << policy << \", \";\n    os << \"xtime: \" << metric;\n    os << \" },\\n\";", "    os << \"policy: \" << policy << \", xtime: \" << metric << \" },\" << std::endl;"))
quiet("C09", "rotated-loop", (S, "  while (!parser.getNextTokenEquals(\"}\")) {\n    int idx;", "  parser.getNextToken();\n  for (; !parser.getTokenEquals(\"}\"); parser.getNextToken()) {\n    int idx;"))
quiet("C09", "double-features", (S, "      float feature;\n      parser.parse<float>(feature);\n      parser.parseExpected(\",\");", "      double value;\n      parser.parse<double>(value);\n      const float feature = value;\n      parser.parseExpected(\",\");"))
quiet("C09", "reader-helper", (S, "void Apollo::Dataset::load(std::istream &is)\n{", "static void expectNext(Parser &p, const char *t)\n{\n  p.getNextToken();\n  p.parseExpected(t);\n}\n\nvoid Apollo::Dataset::load(std::istream &is)\n{"), (S, "  parser.getNextToken();\n  parser.parseExpected(\"data:\");", "  expectNext(parser, \"data:\");"))
quiet("C09", "index-loop", (S, "    for (auto &f : features)\n      os << float(f) << \", \";", "    for (size_t j = 0; j != features.size(); ++j) {\n      os << features[j];\n      os << ',' << ' ';\n    }"))
quiet("C09", "indent", (S, "    os << \"  \" << idx << \": { features: [ \";", "    os << \"    \" << idx << \": {\\n  features: [ \";"))
CD = "src/python/modeling/create-dataset.py"
bad("C09", "script-xtime-key", (CD, "', xtime: '", "', time: '"))
bad("C09", "script-swapped", (CD, "    output += ', policy: ' + str(policy)\n    output += ', xtime: ' + str(xtime)\n", "    output += ', policy: ' + str(xtime)\n    output += ', xtime: ' + str(policy)\n"))
quiet("C09", "script-fstring", (CD, "    output += ', policy: ' + str(policy)\n    output += ', xtime: ' + str(xtime)\n    output += ' },\\n'\n", "    output += f', policy: {policy}, xtime: {xtime} }},\\n'\n"))
quiet("C09", "script-join", (CD, "    for fi in features:\n        output += fi + ', '\n", "    output += ''.join(fi + ', ' for fi in features)\n"))

# ---------------------------------------------------------------- C10
N = "src/models/PolicyNet.cpp"
bad("C10", "dt-precision", (D, "  ofs.precision(std::numeric_limits<double>::max_digits10);\n", ""))
bad("C10", "rf-precision", (F, "  ofs.precision(std::numeric_limits<double>::max_digits10);\n", ""))
bad("C10", "left-right-swapped", (D, "  if (tree.left) output_node(outfmt, *tree.left, \"left\");", "  if (tree.left) output_node(outfmt, *tree.right, \"left\");"))
bad("C10", "threshold-not-restored", (D, "                        feature_idx,\n                        threshold,\n                        left,", "                        feature_idx,\n                        gini,\n                        left,"))
bad("C10", "depth-not-restored", (D, "  parseKeyVal(parser, \"max_depth:\", max_depth);\n\n  parser.getNextToken();\n  parser.parseExpected(\"classes:\");", "  unsigned depth;\n  parseKeyVal(parser, \"max_depth:\", depth);\n\n  parser.getNextToken();\n  parser.parseExpected(\"classes:\");"))
bad("C10", "classes-accumulate", (D, "  classes.clear();\n  data.clear();\n\n  parseKeyVal", "  data.clear();\n\n  parseKeyVal"))
bad("C10", "data-accumulate", (D, "  classes.clear();\n  data.clear();\n\n  parseKeyVal", "  classes.clear();\n\n  parseKeyVal"))
bad("C10", "right-only-after-left", (D, "    left = parse_node(parser);\n    parser.getNextToken();\n  }\n  if (parser.getTokenEquals(\"right:\")) {\n    right = parse_node(parser);\n    parser.getNextToken();\n  }", "    left = parse_node(parser);\n    if (parser.getNextTokenEquals(\"left:\")) {\n      right = parse_node(parser);\n      parser.getNextToken();\n    }\n  }"))
bad("C10", "last-class-rejected", (D, "predicted_class >= (int)num_classes)", "predicted_class >= (int)num_classes - 1)"))
bad("C10", "leaf-rejected", (D, "  if (feature_idx < -1 ||", "  if (feature_idx < 0 ||"))
bad("C10", "gini-int", (D, "  float gini;\n  size_t num_samples;", "  int gini;\n  size_t num_samples;"))
bad("C10", "missing-ignored", (D, "  if (!ifs) throw std::runtime_error(\"Error loading file: \" + filename);\n  parse_tree(ifs);", "  if (!ifs) return;\n  parse_tree(ifs);"))
bad("C10", "rf-trees-accumulate", (F, "  // Loading replaces any trees of an earlier training or load.\n  rfc.clear();\n", ""))
bad("C10", "rf-one-less", (F, "  for (int i = 0; i < num_trees; ++i) {\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));", "  for (int i = 1; i < num_trees; ++i) {\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));"))
bad("C10", "rf-no-data", (F, "    dtree->output_tree(outfmt, \"tree\");", "    dtree->output_tree(outfmt, \"tree\", false);"))
bad("C10", "rf-tree-key", (F, "    dtree->output_tree(outfmt, \"tree\");", "    dtree->output_tree(outfmt, \"tree_\" + std::to_string(tree_idx));"))
bad("C10", "net-order", (N, "  f.read((char *)net->layer2.bias, sizeof(double) * net->layer2.outputSize);\n", ""), (N, "  f.read((char *)net->layer2.weights,\n", "  f.read((char *)net->layer2.bias, sizeof(double) * net->layer2.outputSize);\n  f.read((char *)net->layer2.weights,\n"))
bad("C10", "net-float-size", (N, "  f.read((char *)&trainCount, sizeof(int));", "  f.read((char *)&trainCount, sizeof(short));"))
bad("C10", "net-cache-kept", (N, "  // The cached probabilities are outdated.\n  actionProbabilityMap.clear();\n}\n\n}  // end", "}\n\n}  // end"))
bad("C10", "load-still-trainable", ("src/models/DecisionTree.cpp", "  trainable = false;\n#ifdef ENABLE_OPENCV\n  // The OpenCV load", "#ifdef ENABLE_OPENCV\n  // The OpenCV load"))
quiet("C10", "dt-keyval-out", (D, "  outfmt << \"gini: \" & tree.gini & \",\\n\";\n  outfmt << \"num_samples: \" & tree.num_samples & \",\\n\";", "  auto field = [&outfmt](const char *name, auto value) {\n    outfmt << name & \": \" & value & \",\\n\";\n  };\n  field(\"gini\", tree.gini);\n  field(\"num_samples\", tree.num_samples);"))
quiet("C10", "dt-else", (D, "  if (parser.getTokenEquals(\"left:\")) {\n    left = parse_node(parser);\n    parser.getNextToken();\n  }", "  const bool has_left = parser.getTokenEquals(\"left:\");\n  if (has_left) {\n    left = parse_node(parser);\n    parser.getNextToken();\n  }"))
quiet("C10", "dt-restrict-merged", (D, "  if (predicted_class < 0 || predicted_class >= (int)num_classes)\n    throw", "  const bool known = 0 <= predicted_class && predicted_class < (int)num_classes;\n  if (!known)\n    throw"))
quiet("C10", "dt-extra-newline", (D, "  outfmt << \"count_per_class: {\\n\";", "  outfmt << \"count_per_class: {\\n\\n\";"))
quiet("C10", "rf-while", (F, "  for (int i = 0; i < num_trees; ++i) {\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));", "  rfc.reserve(num_trees);\n  for (unsigned t = 0; t != num_trees; t++) {\n    auto dtree = std::make_unique<DecisionTreeImpl>(num_classes, ifs);\n    rfc.push_back(std::move(dtree));"))
quiet("C10", "net-lambda", (N, "  f.read((char *)net->layer1.weights,\n         sizeof(double) * net->layer1.inputSize * net->layer1.outputSize);\n  f.read((char *)net->layer1.bias, sizeof(double) * net->layer1.outputSize);", "  auto get = [&f](FCLayer &layer) {\n    f.read((char *)layer.weights,\n           sizeof(double) * layer.inputSize * layer.outputSize);\n    f.read((char *)layer.bias, sizeof(double) * layer.outputSize);\n  };\n  get(net->layer1);"))

# ---------------------------------------------------------------- C14
bad("C14", "env-wrong-name", (A, 'safeGetEnv("APOLLO_PER_REGION_TRAIN_PERIOD", "0")', 'safeGetEnv("APOLLO_GLOBAL_TRAIN_PERIOD", "0")'))
bad("C14", "env-default", (A, 'safeGetEnv("APOLLO_LOCAL_TRAINING", "1")', 'safeGetEnv("APOLLO_LOCAL_TRAINING", "0")'))
bad("C14", "env-ignored-empty", (A, '  if (c == NULL) {\n', '  if (c == NULL || c[0] == 0) {\n'))
bad("C14", "env-not-read", (A, '''  Config::APOLLO_STORE_EXEC_INFO =
      std::stoi(apolloUtils::safeGetEnv("APOLLO_STORE_EXEC_INFO", "0"));
''', ''))
bad("C14", "env-threshold-int", (A, '''  Config::APOLLO_RETRAIN_TIME_THRESHOLD = std::stof(''', '''  Config::APOLLO_RETRAIN_TIME_THRESHOLD = std::stoi('''))
bad("C14", "both-accepted", (A, '''  if (Config::APOLLO_SINGLE_MODEL && Config::APOLLO_REGION_MODEL) {''', '''  if (Config::APOLLO_SINGLE_MODEL > 1 && Config::APOLLO_REGION_MODEL) {'''))
bad("C14", "neither-accepted", (A, '''  if (!(Config::APOLLO_COLLECTIVE_TRAINING || Config::APOLLO_LOCAL_TRAINING)) {''', '''  if (!(Config::APOLLO_COLLECTIVE_TRAINING || Config::APOLLO_LOCAL_TRAINING || Config::APOLLO_SINGLE_MODEL)) {'''))
bad("C14", "collective-refused", (A, '''  if (Config::APOLLO_COLLECTIVE_TRAINING && Config::APOLLO_LOCAL_TRAINING) {''', '''  if (Config::APOLLO_COLLECTIVE_TRAINING && Config::APOLLO_REGION_MODEL) {'''))
bad("C14", "models-dir-missing", (A, '''  if (Config::APOLLO_STORE_MODELS)
    apolloUtils''', '''  if (Config::APOLLO_STORE_MODELS && Config::APOLLO_TRACE_CSV)
    apolloUtils'''))
bad("C14", "dataset-dir-name", (A, '''                           Config::APOLLO_DATASETS_DIR);''', '''                           Config::APOLLO_MODELS_DIR);'''))
bad("C14", "mkdir-eexist", (A, "errno != EEXIST", "errno != ENOENT"))
bad("C14", "mkdir-eexist-fatal", (A, "ret != 0 && errno != EEXIST", "ret != 0"))
bad("C14", "mkdir-silent", (A, '''  if (ret != 0 && errno != EEXIST)
    throw std::runtime_error("Error creating directory " + dirname + " : " +
                             strerror(errno));''', '''  (void)ret;'''))
bad("C14", "output-dir-late", (A, '''  apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR);

''', ''), (A, '''#ifdef ENABLE_MPI
  MPI_Comm_dup(MPI''', '''  apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR);
#ifdef ENABLE_MPI
  MPI_Comm_dup(MPI'''))
quiet("C14", "env-helper", (A, '''Apollo::Apollo()
{''', '''static int intSetting(const char *n, const char *d)
{
  std::string v = apolloUtils::safeGetEnv(n, d);
  return std::stoi(v);
}

Apollo::Apollo()
{'''), (A, '''      std::stoi(apolloUtils::safeGetEnv("APOLLO_TRACE_CSV", "0"));''', '''      intSetting("APOLLO_TRACE_CSV", "0");'''))
quiet("C14", "contradiction-merged", (A, '''  if (Config::APOLLO_COLLECTIVE_TRAINING && Config::APOLLO_LOCAL_TRAINING) {
    std::cerr << "Both collective and local training cannot be enabled"
              << std::endl;
    abort();
  }

  if (!(Config::APOLLO_COLLECTIVE_TRAINING || Config::APOLLO_LOCAL_TRAINING)) {
    std::cerr << "Either collective or local training must be enabled"
              << std::endl;
    abort();
  }
''', '''  const bool collective = Config::APOLLO_COLLECTIVE_TRAINING != 0;
  const bool local = Config::APOLLO_LOCAL_TRAINING != 0;
  if (collective == local) {
    std::cerr << (local ? "Both collective and local training cannot be enabled" : "Either collective or local training must be enabled")
              << std::endl;
    abort();
  }
'''))
quiet("C14", "dirs-loop", (A, '''  if (Config::APOLLO_PERSISTENT_DATASETS)
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" +
                           Config::APOLLO_DATASETS_DIR);

  if (Config::APOLLO_TRACE_CSV)
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" +
                           Config::APOLLO_TRACES_DIR);
''', '''  auto sub = [](int wanted, const std::string &dir) {
    if (!wanted) return;
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" + dir);
  };
  sub(Config::APOLLO_TRACE_CSV, Config::APOLLO_TRACES_DIR);
  sub(Config::APOLLO_PERSISTENT_DATASETS, Config::APOLLO_DATASETS_DIR);
'''))
quiet("C14", "mkdir-early-return", (A, '''  if (ret != 0 && errno != EEXIST)
    throw''', '''  if (ret == 0) return;
  if (errno == EEXIST) return;
    throw'''))

# ---------------------------------------------------------------- C15
M = "src/ModelFactory.cpp"
bad("C15", "parse-last-equals", (R, 'size_t kv_pos = keyval_str.find("=");', 'size_t kv_pos = keyval_str.rfind("=");'))
bad("C15", "parse-name-rest", (R, 'model_name = model_info.substr(0, pos);', 'model_name = model_info.substr(0, model_info.find("="));'))
bad("C15", "parse-value-off", (R, 'std::string val = keyval_str.substr(kv_pos + 1);', 'std::string val = keyval_str.substr(kv_pos);'))
bad("C15", "parse-flag-value", (R, 'model_params.emplace(keyval_str, "");', 'model_params.emplace(keyval_str, "1");'))
bad("C15", "validate-missing-key", (R, '''          entry.first != "threshold" && entry.first != "load" &&''', '''          entry.first != "load" &&'''))
bad("C15", "validate-extra-key", (R, '''      if (entry.first != "policy")''', '''      if (entry.first != "policy" && entry.first != "load")'''))
bad("C15", "validate-random-any", (R, '''  if (model_name == "StaticRegion") return;''', '''  if (model_name == "StaticRegion" || model_name == "Random") return;'''))
bad("C15", "validate-inverted", (R, '''      if (entry.first != "max_depth" && entry.first != "explore" &&''', '''      if (entry.first != "max_depth" || entry.first != "explore" &&'''))
bad("C15", "factory-default-depth", (M, '''    // Default max_depth
    unsigned max_depth = 2;''', '''    // Default max_depth
    unsigned max_depth = 3;'''))
bad("C15", "factory-swapped", (M, '''                                          num_trees,
                                          max_depth,''', '''                                          max_depth,
                                          num_trees,'''))
bad("C15", "factory-beta", (M, '''num_policies, num_features, lr, beta, beta1, beta2, threshold''', '''num_policies, num_features, lr, beta, beta2, beta1, threshold'''))
bad("C15", "factory-explore-ignored", (M, '''      explorer = createPolicyModel(it->second,
                                   num_features,''', '''      explorer = createPolicyModel("RoundRobin",
                                   num_features,'''))
bad("C15", "factory-explorer-policies", (M, '''      explorer = createPolicyModel("RoundRobin",
                                   num_features,
                                   num_policies,
                                   explore_model_params);

    return std::make_unique<RandomForest>''', '''      explorer = createPolicyModel("RoundRobin",
                                   num_policies,
                                   num_features,
                                   explore_model_params);

    return std::make_unique<RandomForest>'''))
bad("C15", "factory-stale-iterator", (M, '''    it = model_params.find("beta2");
''', ''))
bad("C15", "factory-negative-policy", (M, '''    if (policy < 0)
      throw''', '''    if (policy < -1)
      throw'''))
bad("C15", "factory-static-off-by-one", (M, '''    if (policy >= num_policies) {''', '''    if (policy >= num_policies - 1) {'''))
bad("C15", "factory-random-is-roundrobin", (M, '''    return std::make_unique<Random>(num_policies);''', '''    return std::make_unique<RoundRobin>(num_policies);'''))
bad("C15", "factory-unknown-static", (M, '''    std::cerr << __FILE__ << ":" << __LINE__ << ":: Invalid model "
              << model_name << std::endl;
    abort();''', '''    std::cerr << __FILE__ << ":" << __LINE__ << ":: Invalid model "
              << model_name << std::endl;
    return std::make_unique<Static>(num_policies, 0);'''))
bad("C15", "model-name-wrong", ("src/models/RandomForest.cpp", '''                           std::unique_ptr<PolicyModel> &explorer)
    : PolicyModel(num_policies, "RandomForest"),''', '''                           std::unique_ptr<PolicyModel> &explorer)
    : PolicyModel(num_policies, "DecisionTree"),'''))
bad("C15", "datasetmap-trainable", ("include/apollo/models/DatasetMap.h", "bool isTrainable() { return false; }", "bool isTrainable() { return true; }"))
bad("C15", "file-wrong-model", (M, "    return std::make_unique<RandomForest>(num_policies, path);", "    return std::make_unique<DecisionTree>(num_policies, path);"))
quiet("C15", "parse-ternary", (R, '''    if (std::string::npos == kv_pos) {
      model_params.emplace(keyval_str, "");
    } else {
      std::string key = keyval_str.substr(0, kv_pos);
      std::string val = keyval_str.substr(kv_pos + 1);
      model_params.emplace(key, val);
    }
''', '''    const bool flag = (kv_pos == std::string::npos);
    const std::string key = keyval_str.substr(0, kv_pos);
    std::string val;
    if (!flag) val = keyval_str.substr(kv_pos + 1);
    model_params.insert({key, val});
'''))
quiet("C15", "parse-index", (R, '''  std::string model_params_str = model_info.substr(pos + 1);
  do {
    pos = model_params_str.find(",");
    std::string keyval_str = model_params_str.substr(0, pos);
''', '''  size_t start = pos + 1;
  do {
    pos = model_info.find(",", start);
    std::string keyval_str = pos == std::string::npos
                                 ? model_info.substr(start)
                                 : model_info.substr(start, pos - start);
'''), (R, '''    model_params_str = model_params_str.substr(pos + 1);

  } while''', '''    start = pos + 1;
  } while'''))
quiet("C15", "validate-set", (R, '''    for (auto &entry : model_params)
      if (entry.first != "policy")
        fatal_error''', '''    for (auto &entry : model_params) {
      if (entry.first == "policy") continue;
        fatal_error'''), (R, '''                    "\\" for policy Static");

    return;''', '''                    "\\" for policy Static");
    }
    return;'''))
quiet("C15", "factory-helper", (M, '''std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
    const std::string &model_name,
    int num_features,''', '''static unsigned uintParam(
    const std::unordered_map<std::string, std::string> &params,
    const std::string &key,
    unsigned dflt)
{
  const auto it = params.find(key);
  return it == params.end() ? dflt : std::stoul(it->second);
}

std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
    const std::string &model_name,
    int num_features,'''), (M, '''    unsigned num_trees = 10;
    unsigned max_depth = 2;
    auto it = model_params.find("num_trees");
    if (it != model_params.end()) num_trees = std::stoul(it->second);
    it = model_params.find("max_depth");
    if (it != model_params.end()) max_depth = std::stoul(it->second);
    std::unique_ptr<PolicyModel> explorer;
    it = model_params''', '''    const unsigned num_trees = uintParam(model_params, "num_trees", 10);
    const unsigned max_depth = uintParam(model_params, "max_depth", 2);
    std::unique_ptr<PolicyModel> explorer;
    auto it = model_params'''))
quiet("C15", "factory-explorer-name", (M, '''    if (it != model_params.end())
      explorer = createPolicyModel(it->second,
                                   num_features,
                                   num_policies,
                                   explore_model_params);
    else
      // Default explorer model is RoundRobin.
      explorer = createPolicyModel("RoundRobin",
                                   num_features,
                                   num_policies,
                                   explore_model_params);

    return std::make_unique<DecisionTree>(''', '''    const std::string how = it != model_params.end() ? it->second : "RoundRobin";
    explorer = createPolicyModel(how, num_features, num_policies, explore_model_params);

    return std::make_unique<DecisionTree>('''))

# ---------------------------------------------------------------- C13
bad("C13", "pack-order", (A, '''    MPI_Pack(&policy, 1, MPI_INT, buf, size, &pos, apollo_mpi_comm);
''', ''), (A, '''    MPI_Pack(&metric, 1, MPI_DOUBLE, buf, size, &pos, apollo_mpi_comm);
''', '''    MPI_Pack(&metric, 1, MPI_DOUBLE, buf, size, &pos, apollo_mpi_comm);
    MPI_Pack(&policy, 1, MPI_INT, buf, size, &pos, apollo_mpi_comm);
'''))
bad("C13", "metric-float", (A, '''    MPI_Pack(&metric, 1, MPI_DOUBLE, buf''', '''    MPI_Pack(&metric, 1, MPI_FLOAT, buf'''), (A, '''recv_size, &pos, &metric, 1, MPI_DOUBLE''', '''recv_size, &pos, &metric, 1, MPI_FLOAT'''), (A, "MPI_Pack_size(1, MPI_DOUBLE, comm", "MPI_Pack_size(1, MPI_FLOAT, comm"))
bad("C13", "size-forgets-metric", (A, '''  // metric
  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);
  measure_size += size;
''', ''))
bad("C13", "own-reinserted", (A, "    if (rank == mpiRank) continue;\n", "    if (rank == mpiRank && mpiSize > 2) continue;\n"))
bad("C13", "others-skipped", (A, "    if (rank == mpiRank) continue;\n", "    if (rank <= mpiRank) continue;\n"))
bad("C13", "own-by-size", (A, "packMeasurements(sendbuf + offset, reg_dataset_size, mpiRank, reg);", "packMeasurements(sendbuf + offset, reg_dataset_size, mpiSize, reg);"))
bad("C13", "offset-not-advanced", (A, '''    packMeasurements(sendbuf + offset, reg_dataset_size, mpiRank, reg);
    offset += reg_dataset_size;''', '''    packMeasurements(sendbuf + offset, reg_dataset_size, mpiRank, reg);
    offset += get_mpi_pack_measure_size(reg->num_features, apollo_mpi_comm);'''))
bad("C13", "features-kept", (A, '''  int pos = 0;
  while (pos < recv_size) {
    int rank;
    int num_features;
    std::vector<float> features;''', '''  int pos = 0;
  std::vector<float> features;
  while (pos < recv_size) {
    int rank;
    int num_features;'''))
bad("C13", "disp-shift", (A, "disp[i] = disp[i - 1] + recv_size_per_rank[i - 1];", "disp[i] = disp[i - 1] + recv_size_per_rank[i];"))
bad("C13", "conditional-collective", (A, '''  MPI_Allgatherv(sendbuf,''', '''  if (recv_size > 0) MPI_Allgatherv(sendbuf,'''))
bad("C13", "skip-empty-rank", (A, '''  char *sendbuf = (char *)malloc(send_size);''', '''  if (send_size == 0) return;
  char *sendbuf = (char *)malloc(send_size);'''))
bad("C13", "leak-or-double-free", (A, '''  free(sendbuf);
  free(recvbuf);''', '''  free(sendbuf);
  if (send_size > 0) free(recvbuf);'''))
bad("C13", "name-32", (A, "MPI_Pack(reg->name, 64, MPI_CHAR", "MPI_Pack(reg->name, 32, MPI_CHAR"))
bad("C13", "name-96", (A, "MPI_Pack(reg->name, 64, MPI_CHAR", "MPI_Pack(reg->name, 96, MPI_CHAR"), (A, "recv_size, &pos, region_name, 64, MPI_CHAR", "recv_size, &pos, region_name, 96, MPI_CHAR"), (A, "MPI_Pack_size(64, MPI_CHAR", "MPI_Pack_size(96, MPI_CHAR"))
bad("C13", "values-swapped", (A, "reg->dataset.insert(features, policy, metric);", "reg->dataset.insert(features, rank, metric);"))
bad("C13", "recv-size", (A, '''  for (int i = 0; i < num_ranks; i++) {
    // std::cout << i << ":" << recv_size_per_rank[i] << ", ";''', '''  for (int i = 1; i < num_ranks; i++) {
    // std::cout << i << ":" << recv_size_per_rank[i] << ", ";'''))
bad("C13", "one-region-only", (A, '''  for (auto it = regions.begin(); it != regions.end(); ++it) {
    Region *reg = it->second;''', '''  for (auto it = regions.begin(); it != regions.end(); ++it) {
    Region *reg = it->second;
    if (reg->num_features == 0) continue;'''))
quiet("C13", "pack-features-at-once", (A, '''    for (const float &value : features) {
      MPI_Pack(&value, 1, MPI_FLOAT, buf, size, &pos, apollo_mpi_comm);
      // std::cout << "feature," << value << " pos: " << pos << std::endl;
    }
''', '''    MPI_Pack(features.data(), features.size(), MPI_FLOAT, buf, size, &pos, apollo_mpi_comm);
'''))
quiet("C13", "if-not-continue", (A, '''    if (rank == mpiRank) continue;
''', ''), (A, '''    if (reg_iter != regions.end()) {
      Region *reg = reg_iter->second;
      reg->dataset''', '''    if (rank != mpiRank && reg_iter != regions.end()) {
      Region *reg = reg_iter->second;
      reg->dataset'''))
quiet("C13", "range-for", (A, '''  for (auto it = regions.begin(); it != regions.end(); ++it) {
    Region *reg = it->second;
    int reg_dataset_size =
        (reg->dataset.size() *
         get_mpi_pack_measure_size(reg->num_features, apollo_mpi_comm));''', '''  for (const auto &entry : regions) {
    Region *reg = entry.second;
    const int per_measure =
        get_mpi_pack_measure_size(reg->num_features, apollo_mpi_comm);
    const int reg_dataset_size = per_measure * (int)reg->dataset.size();'''))
quiet("C13", "disp-running", (A, '''  int disp[num_ranks];
  disp[0] = 0;
  for (int i = 1; i < num_ranks; i++) {
    disp[i] = disp[i - 1] + recv_size_per_rank[i - 1];
  }
''', '''  std::vector<int> dispv(num_ranks, 0);
  for (int i = 0; i + 1 < num_ranks; ++i)
    dispv[i + 1] = dispv[i] + recv_size_per_rank[i];
  int *disp = dispv.data();
'''))
quiet("C13", "size-sum", (A, '''  // rank
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // num features
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;''', '''  // rank, num features
  MPI_Pack_size(2, MPI_INT, comm, &size);
  measure_size += size;'''))
quiet("C13", "unpack-vector", (A, '''    for (int j = 0; j < num_features; j++) {
      float value;
      MPI_Unpack(
          recvbuf, recv_size, &pos, &value, 1, MPI_FLOAT, apollo_mpi_comm);
      features.push_back(value);
    }
''', '''    features.resize(num_features);
    for (int j = 0; j < num_features; j++) {
      MPI_Unpack(
          recvbuf, recv_size, &pos, &features[j], 1, MPI_FLOAT, apollo_mpi_comm);
    }
'''))

# ------------------------------------------------------------------ C21: start-up of a region
bad("C21", "name-63", (R, "  strncpy(name, regionName, sizeof(name) - 1);", "  strncpy(name, regionName, sizeof(name) / 2);"))
bad("C21", "name-overrun", (R, "  strncpy(name, regionName, sizeof(name) - 1);\n  name[sizeof(name) - 1] = '\\0';", "  strncpy(name, regionName, sizeof(name));"))
bad("C21", "env-wins", (R, "  if (model_info.empty()) model_info = Config::APOLLO_POLICY_MODEL;", "  if (!Config::APOLLO_POLICY_MODEL.empty()) model_info = Config::APOLLO_POLICY_MODEL;"))
bad("C21", "static-default", (R, '''    if (it == model_params.end())
      fatal_error("Region name " + std::string(name) +
                  " was not found in StaticRegion parameters");
''', '''    if (it == model_params.end()) it = model_params.begin();
'''))
bad("C21", "features-swapped", (R, '''                                                  num_features,
                                                  num_policies,
                                                  model_params);

  if (!''', '''                                                  num_policies,
                                                  num_features,
                                                  model_params);

  if (!'''))
bad("C21", "load-missing-ignored", (R, '''      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();''', '''      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;'''))
bad("C21", "load-ignores-path", (R, '''    if (model_params["load"].empty())
      model_file =''', '''    if (!model_params["load"].empty())
      model_file ='''))
bad("C21", "latest-name", (R, '''model_name + "-latest-rank-" +''', '''model_name + "-latest-" +'''))
bad("C21", "latest-store", (R, '''               "-latest"
               "-rank-" +
               std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    model->store''', '''               "-latest"
               "-rank-" +
               std::to_string(apollo->mpiRank) + ".yaml";
    model->store'''))
bad("C21", "empty-trains", (R, '''    if (dataset.size() <= 0) fatal_error("dataset size is 0");
''', ""))
bad("C21", "load-no-train", (R, '''    train(0);
    ifs.close();''', '''    autoTrain();
    ifs.close();'''))
bad("C21", "train-before-load", (R, '''    dataset.load(ifs);

    if (dataset.size() <= 0) fatal_error("dataset size is 0");

    // Train with whatever data existing in the dataset, ignore
    // min_training_data (if set).
    train(0);
''', '''    train(0);
    dataset.load(ifs);

    if (dataset.size() <= 0) fatal_error("dataset size is 0");
'''))
bad("C21", "map-not-trained", (R, '''    model->train(dataset);
  }

  if (Config::APOLLO_TRACE_CSV) {''', '''    if (model->isTrainable()) model->train(dataset);
  }

  if (Config::APOLLO_TRACE_CSV) {'''))
bad("C21", "optimal-rank", (R, '''    std::string model_file = "opt-" + std::string(name) + "-rank-" +
                             std::to_string(apollo->mpiRank) + ".txt";''', '''    std::string model_file = "opt-" + std::string(name) + "-rank-" +
                             std::to_string(apollo->mpiSize) + ".txt";'''))
bad("C21", "persistent-required", (R, '''    if (ifs) dataset.load(ifs);
    ifs.close();''', '''    if (!ifs) fatal_error("no dataset");
    dataset.load(ifs);
    ifs.close();'''))
bad("C21", "register-replaces-other", (R, '''  const auto ret = apollo->regions.insert({name, this});''', '''  apollo->regions.clear();
  const auto ret = apollo->regions.insert({name, this});'''))
bad("C21", "not-registered-traced", (R, '''  const auto ret = apollo->regions.insert({name, this});''', '''  if (!trace_file.is_open()) apollo->regions.insert({name, this});'''))
bad("C21", "yaml-only-trainable", (R, '''  if (!modelYamlFile.empty()) model->load(modelYamlFile);''', '''  if (!modelYamlFile.empty() && min_training_data == 0) model->load(modelYamlFile);'''))
bad("C21", "idx-one", (R, "      idx(0),", "      idx(1),"))
quiet("C21", "helper-dataset-file", (R, '''Apollo::Region::Region(const int num_features,
                       const char *regionName,
                       int num_policies,
                       int min_training_data,
                       const std::string &_model_info,
                       const std::string &modelYamlFile)
    :''', '''static std::string datasetFile(const char *name)
{
  return Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_DATASETS_DIR +
         "/Dataset-" + name + ".yaml";
}

Apollo::Region::Region(const int num_features,
                       const char *regionName,
                       int num_policies,
                       int min_training_data,
                       const std::string &_model_info,
                       const std::string &modelYamlFile)
    :'''), (R, '''    std::string dataset_file = Config::APOLLO_OUTPUT_DIR + "/" +
                               Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                               std::string(name) + ".yaml";
    std::ifstream ifs(dataset_file);
    if (ifs) dataset.load(ifs);''', '''    std::string dataset_file = datasetFile(name);
    std::ifstream ifs(dataset_file);
    if (ifs.is_open()) dataset.load(ifs);'''))
quiet("C21", "snprintf-name", (R, '''  strncpy(name, regionName, sizeof(name) - 1);
  name[sizeof(name) - 1] = '\\0';''', '''  snprintf(name, sizeof(name), "%s", regionName);'''))
quiet("C21", "contains-param", (R, '''  if (model_params.count("load")) {
    std::string model_file;
    if (model_params["load"].empty())''', '''  auto load_it = model_params.find("load");
  if (load_it != model_params.end()) {
    std::string model_file;
    const std::string &load_path = load_it->second;
    if (load_path.empty())'''), (R, '''      model_file = model_params["load"];''', '''      model_file = load_path;'''))
quiet("C21", "early-abort", (R, '''    if (fileExists(model_file)) {
      // std::cout << "Model Load " << model_file << std::endl;
      model->load(model_file);
    } else {
      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();
    }''', '''    const bool present = fileExists(model_file);
    if (!present) {
      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();
    }
    model->load(model_file);'''))
quiet("C21", "emplace-region", (R, '''  const auto ret = apollo->regions.insert({name, this});''', '''  apollo->regions.emplace(std::string(name), this);'''))
quiet("C21", "no-fs", (R, '''    if (fileExists(model_file)) {
      // std''', '''    std::ifstream probe(model_file);
    if (probe) {
      // std'''))
quiet("C21", "static-at", (R, '''    if (it == model_params.end())
      fatal_error("Region name " + std::string(name) +
                  " was not found in StaticRegion parameters");
    // Replace with a Static policy for the region.
    model_name = "Static";
    std::string policy = it->second;
    model_params.clear();
    model_params.emplace("policy", policy);
    model_info = "Static,policy=" + policy;''', '''    if (model_params.count(name) == 0)
      fatal_error("Region name " + std::string(name) +
                  " was not found in StaticRegion parameters");
    const std::string chosen = model_params[name];
    model_name = "Static";
    model_info = "Static,policy=" + chosen;
    model_params.clear();
    model_params["policy"] = chosen;'''))

# ------------------------------------------------------------------ C19: CSV traces
bad("C19", "no-newline", (R, '''    trace_file << metric << "\\n";''', '''    trace_file << metric << " ";'''))
bad("C19", "fields-swapped", (R, '''    trace_file << context->policy << " ";
    trace_file << metric << "\\n";''', '''    trace_file << metric << " ";
    trace_file << context->policy << "\\n";'''))
bad("C19", "header-short", (R, '''    for (int i = 0; i < num_features; i++)
      trace_file << " f" << i;''', '''    for (int i = 1; i < num_features; i++)
      trace_file << " f" << i;'''))
bad("C19", "header-from-one", (R, '''      trace_file << " f" << i;''', '''      trace_file << " f" << i + 1;'''))
bad("C19", "no-idx", (R, '''    trace_file << context->idx << " ";
    for''', '''    for'''))
bad("C19", "region-idx", (R, '''    trace_file << context->idx << " ";
    for''', '''    trace_file << idx << " ";
    for'''))
bad("C19", "double-blank", (R, '''    trace_file << this->name << " ";''', '''    trace_file << this->name << "  ";'''))
bad("C19", "only-trainable", (R, '''    trace_file << apollo->mpiRank << " ";
    trace_file << model->name << " ";
    trace_file << this->name << " ";
    trace_file << context->idx << " ";
    for (auto &f : context->features)
      trace_file << f << " ";
    trace_file << context->policy << " ";
    trace_file << metric << "\\n";
  }
''', '''    if (!model->isTrainable()) {
      trace_file << apollo->mpiRank << " ";
      trace_file << model->name << " ";
      trace_file << this->name << " ";
      trace_file << context->idx << " ";
      for (auto &f : context->features)
        trace_file << f << " ";
      trace_file << context->policy << " ";
      trace_file << metric << "\\n";
    }
  }
'''))
bad("C19", "file-no-rank", (R, '''                      "-region-" + name + "-rank-" +
                      std::to_string(apollo->mpiRank) + ".csv");''', '''                      "-region-" + name + ".csv");'''))
bad("C19", "open-unchecked", (R, '''    if (trace_file.fail()) {
      std::cerr << "Error opening trace file " + fname << std::endl;
      abort();
    }''', '''    if (trace_file.fail())
      std::cerr << "Error opening trace file " + fname << std::endl;'''))
bad("C19", "global-fields", (R, '''<< " " << this->name << " " << context->idx << " "
                        << model_name''', '''<< " " << context->idx << " " << this->name << " "
                        << model_name'''))
bad("C19", "global-no-policy", (R, '''                        << " " << context->policy << "\\n";

    trace_file''', '''                        << "\\n";

    trace_file'''))
bad("C19", "global-shared", (A, '''"/trace-rank-" +
                      std::to_string(mpiRank) + ".csv");''', '''"/trace-rank-" +
                      std::to_string(mpiSize) + ".csv");'''))
bad("C19", "script-slice", (CD, '''def agg_by_min(data_per_region):
    output = '# agg by min\\n'

    output += 'data: {\\n'
    feature_cols = list(data_per_region.columns[5:-2])''', '''def agg_by_min(data_per_region):
    output = '# agg by min\\n'

    output += 'data: {\\n'
    feature_cols = list(data_per_region.columns[4:-2])'''))
quiet("C19", "blank-before", (R, '''    trace_file << context->idx << " ";
    for (auto &f : context->features)
      trace_file << f << " ";
    trace_file << context->policy << " ";''', '''    trace_file << context->idx;
    for (size_t i = 0; i < context->features.size(); ++i)
      trace_file << ' ' << context->features[i];
    trace_file << " " << context->policy << " ";'''))
quiet("C19", "helper-row", (R, '''void Apollo::Region::collectContext(Apollo::RegionContext *context,
                                    double metric)
{''', '''static void writeRow(std::ostream &os,
                     int rank,
                     const std::string &model,
                     const char *region,
                     Apollo::RegionContext *context,
                     double metric)
{
  os << rank << " " << model << " " << region << " " << context->idx << " ";
  for (const float f : context->features)
    os << f << " ";
  os << context->policy << " " << metric << '\\n';
}

void Apollo::Region::collectContext(Apollo::RegionContext *context,
                                    double metric)
{'''), (R, '''    trace_file << apollo->mpiRank << " ";
    trace_file << model->name << " ";
    trace_file << this->name << " ";
    trace_file << context->idx << " ";
    for (auto &f : context->features)
      trace_file << f << " ";
    trace_file << context->policy << " ";
    trace_file << metric << "\\n";
''', '''    writeRow(trace_file, apollo->mpiRank, model->name, name, context, metric);
'''))
quiet("C19", "header-string", (R, '''    trace_file << "rankid training region idx";
    // trace_file << "features";
    for (int i = 0; i < num_features; i++)
      trace_file << " f" << i;
    trace_file << " policy xtime\\n";''', '''    trace_file << "rankid" << " training" << " region" << " idx";
    int column = 0;
    while (column < num_features) {
      trace_file << " f" << column;
      column++;
    }
    trace_file << " policy" << " xtime" << std::endl;'''))
quiet("C19", "single-blank-global", (R, '''                        << model_name << " "
                        << " " << context->policy''', '''                        << model_name << " " << context->policy'''))
quiet("C19", "stringstream-row", (R, '''    trace_file << apollo->mpiRank << " ";
    trace_file << model->name << " ";
    trace_file << this->name << " ";
    trace_file << context->idx << " ";
    for (auto &f : context->features)
      trace_file << f << " ";
    trace_file << context->policy << " ";
    trace_file << metric << "\\n";
''', '''    std::stringstream row;
    row << apollo->mpiRank << " ";
    row << model->name << " ";
    row << this->name << " ";
    row << context->idx << " ";
    for (auto &f : context->features)
      row << f << " ";
    row << context->policy << " ";
    row << metric << "\\n";
    trace_file << row.str();
'''))
quiet("C09", "buffered-store", (S, '''void Apollo::Dataset::store(std::ostream &os)
{''', '''void Apollo::Dataset::store(std::ostream &file)
{
  std::ostringstream os;'''), (S, '''  os << "}\\n";''', '''  os << "}\\n";
  file << os.str();'''), (S, "#include", "#include <sstream>\n#include"))

# ---------------------------------------------------------------- C20
bad("C20", "forward-col-bound", (N, "        for (int k = 0; k < inputSize; ++k) {\n          outputs[", "        for (int k = 1; k < inputSize; ++k) {\n          outputs["))
bad("C20", "forward-stride", (N, "weights[j * inputSize + k] * inputs[i * inputSize + k];\n        }\n\n        outputs[i * outputSize + j] += bias[j];", "weights[j * inputSize + k] * inputs[i * outputSize + k];\n        }\n\n        outputs[i * outputSize + j] += bias[j];"))
bad("C20", "forward-no-zero", (N, "    } else {\n      // Zero the output array.\n      for (int i = 0; i < batchSize * outputSize; ++i) {\n        outputs[i] = 0;\n      }\n    }", "    }"))
bad("C20", "forward-zero-part", (N, "      for (int i = 0; i < batchSize * outputSize; ++i) {\n        outputs[i] = 0;", "      for (int i = 0; i < maxBatchSize; ++i) {\n        outputs[i] = 0;"))
bad("C20", "forward-no-bias", (N, "        outputs[i * outputSize + j] += bias[j];", "        outputs[i * outputSize + j] += bias[0];"))
bad("C20", "grow-inputgrad-small", (N, "inputGrad = new double[batchSize * inputSize];", "inputGrad = new double[batchSize * outputSize];"))
bad("C20", "grow-never-again", (N, "if (batchSize > maxBatchSize) {", "if (outputs == NULL) {"))
bad("C20", "grow-leak", (N, "      if (outputs != NULL) {\n        delete[] outputs;\n        delete[] inputGrad;\n      }\n\n      // Allocate new arrays", "      if (outputs != NULL) {\n        delete[] outputs;\n      }\n\n      // Allocate new arrays"))
bad("C20", "grow-forget-size", (N, "      maxBatchSize = batchSize;\n", "      maxBatchSize = batchSize + 1;\n"))
bad("C20", "backward-weights-not-zeroed", (N, "    for (int i = 0; i < outputSize * inputSize; ++i) {\n      weights_grad[i] = 0;\n    }\n", ""))
bad("C20", "backward-bias-assign", (N, "bias_grad[j] += chainRuleGrad", "bias_grad[j] = chainRuleGrad"))
bad("C20", "backward-input-wrong-weight", (N, "chainRuleGrad[i * outputSize + j] * weights[j * inputSize + k];", "chainRuleGrad[i * outputSize + j] * weights[k * outputSize + j];"))
bad("C20", "step-no-debias", (N, "double vHat = bias_v[i] / (1 - std::pow(beta2, stepNum));", "double vHat = bias_v[i];"))
bad("C20", "step-descent", (N, "bias[i] += learnRate * mHat", "bias[i] -= learnRate * mHat"))
bad("C20", "step-num-late", (N, "    stepNum++;\n\n    // Update each", "    // Update each"), (N, "      bias[i] += learnRate * mHat / (std::sqrt(vHat) + epsilon);\n    }\n", "      bias[i] += learnRate * mHat / (std::sqrt(vHat) + epsilon);\n    }\n    stepNum++;\n"))
bad("C20", "step-wrong-moment", (N, "(1 - beta1) * bias_grad[i];", "(1 - beta2) * bias_grad[i];"))
bad("C20", "relu-leak-grad", (N, "chainRuleGrad[i] * std::signbit(-inputs[i])", "chainRuleGrad[i] * std::signbit(inputs[i])"))
bad("C20", "relu-grow", (N, "    if (batchSize * outputSize > maxArraySize) {\n      maxArraySize = batchSize * outputSize;\n\n      // Delete old arrays if they exist.\n      if (outputs != NULL) {\n        delete[] outputs;\n        delete[] inputGrad;\n      }\n\n      outputs = new double[maxArraySize];\n      inputGrad = new double[maxArraySize];\n    }\n\n    // Compute ReLU", "    if (batchSize > maxArraySize) {\n      maxArraySize = batchSize * outputSize;\n\n      // Delete old arrays if they exist.\n      if (outputs != NULL) {\n        delete[] outputs;\n        delete[] inputGrad;\n      }\n\n      outputs = new double[maxArraySize];\n      inputGrad = new double[maxArraySize];\n    }\n\n    // Compute ReLU"))
bad("C20", "softmax-sum-all", (N, "    for (int i = 0; i < batchSize; ++i) {\n      double sum = 0;", "    double sum = 0;\n    for (int i = 0; i < batchSize; ++i) {"))
bad("C20", "softmax-no-max", (N, "            inputs[index] -\n            alpha[i]);", "            inputs[index]);"))
bad("C20", "softmax-last", (N, "      for (int j = 0; j < outputSize; ++j) {\n        outputs[i * outputSize + j] /= sum;", "      for (int j = 0; j < outputSize - 1; ++j) {\n        outputs[i * outputSize + j] /= sum;"))
bad("C20", "loss-sign", (N, "inputGrad[i * inputSize + action[i]] += reward[i] / batchSize;", "inputGrad[i * inputSize + action[i]] -= reward[i] / batchSize;"))
bad("C20", "loss-action-row", (N, "inputGrad[i * inputSize + action[i]] +=", "inputGrad[i * inputSize + action[0]] +="))
bad("C20", "loss-no-mean", (N, "+= reward[i] / batchSize;", "+= reward[i];"))
bad("C20", "dtor-leak", (N, "    delete[] bias_v;\n    delete[] bias_grad;\n", "    delete[] bias_grad;\n"))
bad("C20", "dtor-double", (N, "    delete[] bias_m;\n    delete[] bias_v;", "    delete[] bias_m;\n    delete[] bias_m;"))
bad("C20", "ctor-small-bias", (N, "bias_grad = new double[outputSize]();", "bias_grad = new double[inputSize]();"))
bad("C20", "chain-backward-input", (N, "auto out2_grad = layer2.backward(aout1, aout2_grad, batchSize);", "auto out2_grad = layer2.backward(out1, aout2_grad, batchSize);"))
bad("C20", "chain-relu-swap", (N, "auto aout1_grad = relu1.backward(out1, out2_grad, batchSize, hiddenSize);", "auto aout1_grad = relu1.backward(out2, out2_grad, batchSize, hiddenSize);"))
bad("C20", "chain-no-step", (N, "    layer2.step(learnRate, beta1, beta2);\n", ""))
bad("C20", "chain-step-betas", (N, "    layer2.step(learnRate, beta1, beta2);\n", "    layer2.step(learnRate, beta2, beta1);\n"))
bad("C20", "chain-early-step", (N, "    layer1.backward(state, aout1_grad, batchSize);\n\n    // Update the parameters of each layer.\n    layer1.step(learnRate, beta1, beta2);\n", "    layer1.step(learnRate, beta1, beta2);\n    layer1.backward(state, aout1_grad, batchSize);\n\n"))
bad("C20", "chain-share-relu", (N, "auto aout2 = relu2.forward(out2, batchSize, hiddenSize);\n    auto out3 = layer3.forward(aout2, batchSize);\n    auto aout3 = softmax.forward(out3, batchSize, outputSize);\n\n    // Compute the backward", "auto aout2 = relu1.forward(out2, batchSize, hiddenSize);\n    auto out3 = layer3.forward(aout2, batchSize);\n    auto aout3 = softmax.forward(out3, batchSize, outputSize);\n\n    // Compute the backward"))
bad("C20", "shape-layer3", (N, "layer3(FCLayer(hiddenSize, outputSize))", "layer3(FCLayer(inputSize, outputSize))"))
quiet("C20", "forward-local-sum", (N, "        for (int k = 0; k < inputSize; ++k) {\n          outputs[i * outputSize + j] +=\n              weights[j * inputSize + k] * inputs[i * inputSize + k];\n        }\n\n        outputs[i * outputSize + j] += bias[j];\n", "        double total = bias[j];\n        for (int k = 0; k < inputSize; ++k)\n          total += weights[j * inputSize + k] * inputs[i * inputSize + k];\n        outputs[i * outputSize + j] = total;\n"))
quiet("C20", "forward-row-ptr", (N, "        for (int k = 0; k < inputSize; ++k) {\n          outputs[i * outputSize + j] +=\n              weights[j * inputSize + k] * inputs[i * inputSize + k];\n        }\n", "        const double *w = weights + j * inputSize;\n        const double *x = inputs + i * inputSize;\n        for (int k = 0; k < inputSize; ++k) {\n          outputs[i * outputSize + j] += w[k] * x[k];\n        }\n"))
quiet("C20", "forward-zero-always", (N, "    } else {\n      // Zero the output array.\n      for (int i = 0; i < batchSize * outputSize; ++i) {\n        outputs[i] = 0;\n      }\n    }", "    }\n    std::fill(outputs, outputs + batchSize * outputSize, 0.0);"))
quiet("C20", "backward-split-loops", (N, "        bias_grad[j] += chainRuleGrad[i * outputSize + j];\n      }\n    }\n", "      }\n    }\n    for (int j = 0; j < outputSize; ++j)\n      for (int i = 0; i < batchSize; ++i)\n        bias_grad[j] += chainRuleGrad[i * outputSize + j];\n"))
quiet("C20", "backward-grad-local", (N, "        for (int k = 0; k < inputSize; ++k) {\n          weights_grad[j * inputSize + k] +=\n              chainRuleGrad[i * outputSize + j] * inputs[i * inputSize + k];\n          inputGrad[i * inputSize + k] +=\n              chainRuleGrad[i * outputSize + j] * weights[j * inputSize + k];\n        }\n", "        const double grad = chainRuleGrad[i * outputSize + j];\n        for (int k = 0; k < inputSize; ++k) {\n          int w = j * inputSize + k;\n          int x = i * inputSize + k;\n          weights_grad[w] += grad * inputs[x];\n          inputGrad[x] += grad * weights[w];\n        }\n"))
quiet("C20", "step-helper", (N, "  int inputSize;\n  int outputSize;\n\n  double *weights;", "  static void adam(double &w, double &m, double &v, double g, double lr, double b1, double b2, double eps, long n)\n  {\n    m = b1 * m + (1 - b1) * g;\n    v = b2 * v + (1 - b2) * g * g;\n    w += lr * (m / (1 - std::pow(b1, n))) / (std::sqrt(v / (1 - std::pow(b2, n))) + eps);\n  }\n\n  int inputSize;\n  int outputSize;\n\n  double *weights;"), (N, "      // Update the moving averages of the first and second moments of the\n      // gradient.\n      bias_m[i] = beta1 * bias_m[i] + (1 - beta1) * bias_grad[i];\n      bias_v[i] = beta2 * bias_v[i] + (1 - beta2) * std::pow(bias_grad[i], 2);\n\n      // Compute the unbiased moving averages.\n      double mHat = bias_m[i] / (1 - std::pow(beta1, stepNum));\n      double vHat = bias_v[i] / (1 - std::pow(beta2, stepNum));\n\n      // Update the weights.\n      bias[i] += learnRate * mHat / (std::sqrt(vHat) + epsilon);\n", "      adam(bias[i], bias_m[i], bias_v[i], bias_grad[i], learnRate, beta1, beta2, epsilon, stepNum);\n"))
quiet("C20", "step-debias-hoisted", (N, "    stepNum++;\n\n    // Update each", "    stepNum++;\n    const double c1 = 1 - std::pow(beta1, stepNum);\n    const double c2 = 1 - std::pow(beta2, stepNum);\n\n    // Update each"), (N, "double mHat = bias_m[i] / (1 - std::pow(beta1, stepNum));\n      double vHat = bias_v[i] / (1 - std::pow(beta2, stepNum));", "double mHat = bias_m[i] / c1;\n      double vHat = bias_v[i] / c2;"))
quiet("C20", "relu-ternary", (N, "chainRuleGrad[i] * std::signbit(-inputs[i])", "inputs[i] > 0 ? chainRuleGrad[i] : 0."))
quiet("C20", "relu-forward-if", (N, "      outputs[i] = std::max(inputs[i], 0.);", "      if (inputs[i] > 0)\n        outputs[i] = inputs[i];\n      else\n        outputs[i] = 0.;"))
quiet("C20", "relu-nested-loops", (N, "    for (int i = 0; i < batchSize * outputSize; ++i) {\n      outputs[i] = std::max(inputs[i], 0.);\n    }", "    for (int r = 0; r < batchSize; ++r)\n      for (int c = 0; c < outputSize; ++c)\n        outputs[r * outputSize + c] = std::max(inputs[r * outputSize + c], 0.);"))
quiet("C20", "softmax-one-loop", (N, "    double alpha[batchSize];\n    for (int i = 0; i < batchSize; ++i) {\n      alpha[i] = inputs[i * outputSize];\n      for (int j = 0; j < outputSize; ++j) {\n        alpha[i] = std::max(alpha[i], inputs[i * outputSize + j]);\n      }\n    }\n", ""), (N, "      double sum = 0;\n", "      double alpha = inputs[i * outputSize];\n      for (int j = 1; j < outputSize; ++j)\n        alpha = std::max(alpha, inputs[i * outputSize + j]);\n      double sum = 0;\n"), (N, "            alpha[i]);", "            alpha);"))
quiet("C20", "softmax-inverse", (N, "      for (int j = 0; j < outputSize; ++j) {\n        outputs[i * outputSize + j] /= sum;", "      const double scale = 1. / sum;\n      for (int j = 0; j < outputSize; ++j) {\n        outputs[i * outputSize + j] *= scale;"))
quiet("C20", "loss-indicator", (N, "        inputGrad[index] = -reward[i] * actionProbs[index] / batchSize;\n      }\n      inputGrad[i * inputSize + action[i]] += reward[i] / batchSize;\n", "        double chosen = (j == action[i]) ? 1. : 0.;\n        inputGrad[index] = reward[i] * (chosen - actionProbs[index]) / batchSize;\n      }\n"))
quiet("C20", "dtor-guards", (N, "    if (outputs != NULL) {\n      delete[] outputs;\n      delete[] inputGrad;\n    }\n  }\n\n  double *forward(double *inputs, int batchSize)\n", "    if (outputs != nullptr) delete[] inputGrad;\n    delete[] outputs;\n  }\n\n  double *forward(double *inputs, int batchSize)\n"))
quiet("C20", "chain-step-order", (N, "    layer1.step(learnRate, beta1, beta2);\n    layer2.step(learnRate, beta1, beta2);\n    layer3.step(learnRate, beta1, beta2);", "    for (FCLayer *l : {&layer3, &layer2, &layer1})\n      l->step(learnRate, beta1, beta2);"))
quiet("C20", "chain-forward-shared", (N, "    // Compute the forward pass through each layer of the network.\n    auto out1 = layer1.forward(state, batchSize);\n    auto aout1 = relu1.forward(out1, batchSize, hiddenSize);\n    auto out2 = layer2.forward(aout1, batchSize);\n    auto aout2 = relu2.forward(out2, batchSize, hiddenSize);\n    auto out3 = layer3.forward(aout2, batchSize);\n    auto aout3 = softmax.forward(out3, batchSize, outputSize);\n\n    return aout3;", "    return softmax.forward(logits(state, batchSize), batchSize, outputSize);"), (N, "  double *forward(double *state, int batchSize)\n", "  double *logits(double *state, int n)\n  {\n    double *h1 = relu1.forward(layer1.forward(state, n), n, hiddenSize);\n    double *h2 = relu2.forward(layer2.forward(h1, n), n, hiddenSize);\n    return layer3.forward(h2, n);\n  }\n\n  double *forward(double *state, int batchSize)\n"))

# ---------------------------------------------------------------- C16
bad("C16", "cache-not-dropped", (N, "  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();\n", "  trainNet(states, actions, rewards);\n"))
bad("C16", "cache-dropped-when-large", (N, "  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();\n", "  trainNet(states, actions, rewards);\n\n  if (actionProbabilityMap.size() > 1) actionProbabilityMap.clear();\n"))
bad("C16", "cache-dropped-early", (N, "  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();\n", "  if (trainCount > 0) actionProbabilityMap.clear();\n  trainNet(states, actions, rewards);\n"))
bad("C16", "key-narrow", (N, "  std::bitset<sizeof(uint64_t) * CHAR_BIT> bits;\n  for (auto &feature", "  std::bitset<16> bits;\n  for (auto &feature"))
bad("C16", "key-last-feature", (N, "    key.append(bits.to_string());", "    key = bits.to_string();"))
bad("C16", "key-int", (N, "    bits = (uint64_t)feature;", "    bits = (uint16_t)feature;"))
bad("C16", "eval-order", (N, "        evalState[index + j] = bits[j];", "        evalState[index + j] = bits[63 - j];"))
bad("C16", "eval-32", (N, "      for (int j = 0; j < 64; ++j) {\n        evalState", "      for (int j = 0; j < 32; ++j) {\n        evalState"))
bad("C16", "eval-interleave", (N, "        evalState[index + j] = bits[j];", "        evalState[j * features.size() + i] = bits[j];"))
bad("C16", "eval-leak", (N, "    // Delete the state array.\n    delete[] evalState;\n", ""))
bad("C16", "eval-cached-short", (N, "    for (int i = 0; i < numPolicies; ++i)\n      actionProbs[i] =", "    for (int i = 1; i < numPolicies; ++i)\n      actionProbs[i] ="))
bad("C16", "eval-batch", (N, "net->forward(evalState, 1)", "net->forward(evalState, features.size())"))
bad("C16", "probs-extra", (N, "actionProbs = std::vector<double>(numPolicies);", "actionProbs = std::vector<double>(numPolicies + 1);"))
bad("C16", "threshold-ge", (N, "  if (baseline < threshold) return 0;\n\n  std::vector<double>", "  if (baseline <= threshold) return 0;\n\n  std::vector<double>"))
bad("C16", "threshold-raw", (N, "      (trainCount > 0 ? rewardMovingAvg / (1 - std::pow(beta, trainCount))\n                      : 0.0);", "      rewardMovingAvg;"))
bad("C16", "default-last", (N, "  if (baseline < threshold) return 0;\n\n  std::vector<double>", "  if (baseline < threshold) return numPolicies - 1;\n\n  std::vector<double>"))
bad("C16", "argmax", (N, "  int policyIndex = d(gen);", "  int policyIndex = d(gen) + (trainCount > 100 ? 1 : 0);"))
bad("C16", "reward-sign", (N, "rewards.push_back(std::exp(-metric));", "rewards.push_back(std::exp(metric));"))
bad("C16", "actions-const", (N, "    trainActions[i] = actions[i];", "    trainActions[i] = actions[0];"))
bad("C16", "rewards-raw", (N, "        rewards[i] -\n        baseline;", "        rewards[i];"))
bad("C16", "average-old", (N, "rewardMovingAvg = beta * rewardMovingAvg + (1 - beta) * batchRewardAvg;", "rewardMovingAvg = (1 - beta) * rewardMovingAvg + beta * batchRewardAvg;"))
bad("C16", "count-late", (N, "std::pow(beta, ++trainCount)", "std::pow(beta, trainCount++)"))
bad("C16", "train-skip-last", (N, "  int batchSize = states.size();\n", "  int batchSize = states.size() > 1 ? states.size() - 1 : states.size();\n"))
bad("C16", "train-small-array", (N, "  int *trainActions = new int[batchSize];", "  int *trainActions = new int[inputSize];"))
bad("C16", "train-bit-order", (N, "        features_bits.push_back(bits[i]);", "        features_bits.push_back(bits[bits.size() - 1 - i]);"))
bad("C16", "train-twice", (N, "  net->trainStep(trainStates, trainActions, trainRewards, batchSize);\n", "  net->trainStep(trainStates, trainActions, trainRewards, batchSize);\n  if (batchSize > 100) net->trainStep(trainStates, trainActions, trainRewards, batchSize);\n"))
bad("C16", "train-free-twice", (N, "  delete[] trainActions;\n  delete[] trainRewards;", "  delete[] trainActions;\n  delete[] trainActions;"))
bad("C16", "ctor-outputs", (N, "                              (64 * numFeatures + numPolicies) / 2,\n                              numPolicies,", "                              (64 * numFeatures + numPolicies) / 2,\n                              numPolicies - 1,"))
bad("C16", "ctor-betas", (N, "                              lr,\n                              beta1,\n                              beta2);", "                              lr,\n                              beta2,\n                              beta1);"))
quiet("C16", "vector-state", (N, "    double *evalState = new double[inputSize];\n", "    std::vector<double> state(inputSize);\n    double *evalState = state.data();\n"), (N, "    // Delete the state array.\n    delete[] evalState;\n", ""))
quiet("C16", "probs-range", (N, "    actionProbs = std::vector<double>(numPolicies);\n    for (int i = 0; i < numPolicies; ++i)\n      actionProbs[i] = evalActionProbs[i];\n", "    actionProbs.assign(evalActionProbs, evalActionProbs + numPolicies);\n"))
quiet("C16", "probs-push", (N, "    actionProbs = std::vector<double>(numPolicies);\n    for (int i = 0; i < numPolicies; ++i)\n      actionProbs[i] = evalActionProbs[i];\n", "    actionProbs.reserve(numPolicies);\n    for (int i = 0; i < numPolicies; ++i)\n      actionProbs.push_back(evalActionProbs[i]);\n"))
quiet("C16", "cache-index", (N, "    actionProbabilityMap.insert(std::make_pair(key, actionProbs));", "    actionProbabilityMap[key] = actionProbs;"))
quiet("C16", "cache-emplace", (N, "    actionProbabilityMap.insert(std::make_pair(key, actionProbs));", "    actionProbabilityMap.emplace(key, actionProbs);"))
quiet("C16", "key-helper", (N, "int PolicyNet::getIndex(std::vector<float> &features)\n{", "static std::string stateKey(const std::vector<float> &features)\n{\n  std::string key;\n  for (size_t i = 0; i < features.size(); ++i)\n    key += std::bitset<64>((uint64_t)features[i]).to_string();\n  return key;\n}\n\nint PolicyNet::getIndex(std::vector<float> &features)\n{"), (N, '  std::string key = "";\n', "  std::string key = stateKey(features);\n"), (N, "  std::bitset<sizeof(uint64_t) * CHAR_BIT> bits;\n  for (auto &feature : features) {\n    bits = (uint64_t)feature;\n    key.append(bits.to_string());\n  }\n", ""))
quiet("C16", "bits-shift", (N, "      std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)features[i]);\n      for (int j = 0; j < 64; ++j) {\n        evalState[index + j] = bits[j];", "      uint64_t value = (uint64_t)features[i];\n      for (int j = 0; j < 64; ++j) {\n        evalState[index + j] = (value >> j) & 1;"))
quiet("C16", "bits-test", (N, "        evalState[index + j] = bits[j];", "        evalState[i * 64 + j] = bits.test(j) ? 1.0 : 0.0;"))
quiet("C16", "avg-loop", (N, "  double batchRewardAvg = std::accumulate(rewards.begin(), rewards.end(), 0.0);\n", "  double batchRewardAvg = 0;\n  for (double r : rewards)\n    batchRewardAvg += r;\n"))
quiet("C16", "clear-in-trainnet", (N, "  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();\n", "  trainNet(states, actions, rewards);\n"), (N, "  // Train the network.\n  net->trainStep", "  // The probabilities change.\n  actionProbabilityMap.clear();\n  // Train the network.\n  net->trainStep"))
quiet("C16", "guard-inverted", (N, "  if (baseline < threshold) return;\n", "  if (!(baseline >= threshold)) return;\n"))
quiet("C16", "unique-arrays", (N, "  double *trainRewards = new double[batchSize];\n", "  std::unique_ptr<double[]> rewardStore(new double[batchSize]);\n  double *trainRewards = rewardStore.get();\n"), (N, "  delete[] trainActions;\n  delete[] trainRewards;", "  delete[] trainActions;"))
quiet("C16", "copy-rows", (N, "    for (int j = 0; j < inputSize; ++j)\n      trainStates[i * inputSize + j] = states[i][j];\n", "    std::copy(states[i].begin(), states[i].end(), trainStates + i * inputSize);\n"))

# ---------------------------------------------------------------- C17
PA = "src/helpers/Parser.cpp"
PH = "src/helpers/Parser.h"
bad("C17", "off-by-one", (PA, "if (idx >= BUFSIZE) fatal_error", "if (idx > BUFSIZE) fatal_error"))
bad("C17", "no-limit", (PA, "      if (idx >= BUFSIZE) fatal_error(\"Token exceeds buffer size\");\n", ""))
bad("C17", "silently-cut", (PA, "    while (!std::isspace(*it)) {\n", "    while (!std::isspace(*it) && idx < (int)BUFSIZE - 1) {\n"))
bad("C17", "smaller-buffer", (PH, "  char buffer[BUFSIZE];", "  char buffer[BUFSIZE / 2];"))
bad("C17", "prefix-only", (PA, "  if (std::strcmp(token, expected)) {\n", "  if (std::strncmp(token, expected, std::strlen(expected))) {\n"))
bad("C17", "warn-only", (PA, "            << \"\\n\";\n  abort();\n", "            << \"\\n\";\n"))
bad("C17", "atoi", (PA, "  val = std::stoi(token, &pos);\n  token = &buffer[pos];\n", "  val = std::atoi(token);\n  pos = 1;\n  token = &buffer[pos];\n"))
bad("C17", "rest-not-kept", (PA, "  val = std::stof(token, &pos);\n  token = &buffer[pos];\n", "  val = std::stof(token, &pos);\n"))
bad("C17", "unsigned-via-int", (PA, "  val = std::stoull(token, &pos);", "  val = std::stoi(token, &pos);"))
bad("C17", "brace-skipped", (S, "  parser.getNextToken();\n  parser.parseExpected(\"{\");\n", "  parser.getNextToken();\n"))
bad("C17", "tree-close-skipped", (D, "  parse_data(parser);\n\n  parser.getNextToken();\n  parser.parseExpected(\"}\");\n", "  parse_data(parser);\n\n  parser.getNextToken();\n"))
bad("C17", "tree-close-not-read", (D, "  parse_data(parser);\n\n  parser.getNextToken();\n  parser.parseExpected(\"}\");\n", "  parse_data(parser);\n"))
bad("C17", "forest-close-not-read", (F, "  parser.getNextToken();\n  parser.parseExpected(\"}\");\n", ""))
bad("C17", "comma-not-looked-at", (D, "  parser.getNextToken();\n  parser.parse(val);\n  parser.parseExpected(\",\");\n};\n\nDecisionTreeImpl", "  parser.getNextToken();\n  parser.parse(val);\n};\n\nDecisionTreeImpl"))
bad("C17", "key-not-looked-at", (F, "  parser.getNextToken();\n  parser.parseExpected(key);\n", "  parser.getNextToken();\n"))
bad("C17", "result-ignored", (D, "    parser.getNextToken();\n    parser.parseExpected(\"class:\");\n", "    parser.getNextTokenEquals(\"class:\");\n"))
bad("C17", "node-close-not-checked", (D, "  parser.parseExpected(\"},\");\n\n  Node *node", "  Node *node"))
quiet("C17", "limit-before-write", (PA, "      buffer[idx] = *it;\n      ++idx;\n      ++it;\n      if (idx >= BUFSIZE) fatal_error(\"Token exceeds buffer size\");\n", "      if (idx + 1 >= (int)BUFSIZE) fatal_error(\"Token exceeds buffer size\");\n      buffer[idx++] = *it;\n      ++it;\n"))
quiet("C17", "stop-at-eof", (PA, "    while (!std::isspace(*it)) {\n", "    while (it != end && !std::isspace(*it)) {\n"))
quiet("C17", "bigger-buffer", (PH, "BUFSIZE = 64;", "BUFSIZE = 256;"))
quiet("C17", "not-equal", (PA, "  if (std::strcmp(token, expected)) {\n", "  if (!getTokenEquals(expected)) {\n"))
quiet("C17", "early-return", (PA, "  if (std::strcmp(token, expected)) {\n", "  if (std::strcmp(token, expected) == 0) return;\n  {\n"))
quiet("C17", "helper-expect", (S, "  parser.getNextToken();\n  parser.parseExpected(\"data:\");\n", "  auto next = [&](const char *w) { parser.getNextToken(); parser.parseExpected(w); };\n  next(\"data:\");\n"))
quiet("C17", "token-offset", (PA, "  val = std::stod(token, &pos);\n  token = &buffer[pos];\n", "  val = std::stod(token, &pos);\n  token += pos;\n"))
quiet("C17", "read-helper", (D, "  parser.getNextToken();\n  parser.parseExpected(\"data:\");\n  parser.getNextToken();\n  parser.parseExpected(\"{\");\n", "  for (const char *w : {\"data:\", \"{\"}) {\n    parser.getNextToken();\n    parser.parseExpected(w);\n  }\n"))
quiet("C17", "if-throw", (D, "    parser.getNextToken();\n    parser.parseExpected(\"class:\");\n", "    if (!parser.getNextTokenEquals(\"class:\"))\n      throw std::runtime_error(\"class expected\");\n"))
bad("C17", "class-equal-count", (D, "predicted_class >= (int)num_classes)", "predicted_class > (int)num_classes)"))
bad("C17", "feature-below", (D, "feature_idx < -1 || feature_idx >= (int)num_features", "feature_idx >= (int)num_features"))
quiet("C17", "range-helper", (D, "  if (predicted_class < 0 || predicted_class >= (int)num_classes)\n", "  const bool known = predicted_class >= 0 && predicted_class < (int)num_classes;\n  if (!known)\n"))

# ---------------------------------------------------------------- C22
bad("C22", "train-no-collect", (A, "{ r->train(step); }", "{ r->train(step, false); }"))
bad("C22", "train-forced", (A, "{ r->train(step); }", "{ r->train(step, true, true); }"))
bad("C22", "args-swapped", (A, "      num_features, id, num_policies, min_training_data, model_info);", "      num_features, id, min_training_data, num_policies, model_info);"))
bad("C22", "default-model", (A, "      num_features, id, num_policies, min_training_data, model_info);", "      num_features, id, num_policies, min_training_data);"))
bad("C22", "policy-not-returned", (A, "  return policy;\n}", "  return policy % 2;\n}"))
bad("C22", "asked-twice", (A, "  int policy = r->getPolicyIndex();\n", "  int policy = r->getPolicyIndex();\n  if (policy < 0) policy = r->getPolicyIndex();\n"))
bad("C22", "end-metric", (A, "  r->end();\n", "  r->end(0.0);\n"))
bad("C22", "feature-int", (A, "  r->setFeature(feature);\n", "  r->setFeature((int)feature);\n"))
bad("C22", "flush-no-collect", (A, "void Apollo::flushAllRegionMeasurements(int step) { train(step); }", "void Apollo::flushAllRegionMeasurements(int step) { train(step, false); }"))
bad("C22", "end-sync", (R, "void Apollo::Region::end(void) { end(current_context); }", "void Apollo::Region::end(void) { end(&sync_context); }"))
bad("C22", "region-cached", (A, "  return new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);", "  static Apollo::Region *last = new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);\n  return last;"))
quiet("C22", "locals", (A, "  int policy = r->getPolicyIndex();\n", "  Apollo::Region &reg = *r;\n  const int policy = reg.getPolicyIndex();\n"))
quiet("C22", "explicit", (A, "{ r->train(step); }", "{\n  const bool collect = true;\n  r->train(step, collect, false);\n}"))
quiet("C22", "begin-kind", (A, "  r->begin();\n", "  r->begin(Apollo::Region::TIMING_SYNC);\n"))
quiet("C22", "create-local", (A, "  return new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);", "  std::string info(model_info);\n  auto *reg = new Apollo::Region(\n      num_features, id, num_policies, min_training_data, info);\n  return reg;"))

# ---------------------------------------------------------------- C23
TS = "src/timers/TimerSync.cpp"
TC = "src/timers/TimerCudaAsync.cpp"
TH = "src/timers/TimerHipAsync.cpp"
bad("C23", "cpu-time", (TS, "  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_end", "  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);\n  exec_time_end"))
bad("C23", "realtime", (TS, "  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_end", "  clock_gettime(CLOCK_REALTIME, &ts);\n  exec_time_end"), (TS, "  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_begin", "  clock_gettime(CLOCK_REALTIME, &ts);\n  exec_time_begin"))
bad("C23", "milli", (TS, "  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;", "  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e6;"))
bad("C23", "int-division", (TS, "  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;", "  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1000000000;"))
bad("C23", "absolute", (TS, "  metric = exec_time_end - exec_time_begin;\n", "  metric = exec_time_begin - exec_time_end;\n  if (metric < 0) metric = -metric * 1000;\n"))
bad("C23", "nsec-only", (TS, "  metric = exec_time_end - exec_time_begin;\n", "  metric = exec_time_end - exec_time_begin;\n  if (metric > 1) metric -= (long)metric;\n"))
bad("C23", "not-done-if-zero", (TS, "  return true;\n", "  return metric > 0;\n"))
bad("C23", "hip-ms", (TH, "hipTime / 1000.0", "hipTime"))
bad("C23", "hip-same-event", (TH, "void TimerHipAsync::stop() { hipErrchk(hipEventRecord(event_stop, 0)); }", "void TimerHipAsync::stop() { hipErrchk(hipEventRecord(event_start, 0)); }"))
bad("C23", "hip-not-ready-done", (TH, "if (code == hipErrorNotReady) return false;", "if (code == hipErrorNotReady) return true;"))
bad("C23", "cuda-error-ignored", (TC, "    cudaAssert(code, __FILE__, __LINE__);\n  }\n\n  // Convert", "    return false;\n  }\n\n  // Convert"))
bad("C23", "cuda-leak", (TC, "  cudaErrchk(cudaEventDestroy(event_stop));\n", ""))
quiet("C23", "diff-timespec", (TS, "  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;", "  const double secs = (double)ts.tv_sec;\n  exec_time_end = secs + 1e-9 * ts.tv_nsec;"))
quiet("C23", "helper", (TS, "void TimerSync::start()\n{\n  struct timespec ts;\n  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;\n}", "static double now()\n{\n  struct timespec ts;\n  clock_gettime(CLOCK_MONOTONIC, &ts);\n  return ts.tv_sec + ts.tv_nsec / 1e9;\n}\n\nvoid TimerSync::start() { exec_time_begin = now(); }"))
quiet("C23", "chrono", (TS, "  struct timespec ts;\n  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;", "  exec_time_begin = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();"), (TS, "  struct timespec ts;\n  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;", "  exec_time_end = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();"))
quiet("C23", "switch-code", (TC, "    if (code == cudaErrorNotReady) return false;\n\n    cudaAssert(code, __FILE__, __LINE__);\n", "    if (code != cudaErrorNotReady) cudaAssert(code, __FILE__, __LINE__);\n    return false;\n"))

# ---------------------------------------------------------------- C24
bad("C24", "first-kept", (A, "  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;\n  }\n", "  for (auto &it : regions) {\n    Region *r = it.second;\n    if (r->idx) delete r;\n  }\n"))
bad("C24", "not-deleted", (A, "    delete r;\n", ""))
bad("C24", "close-early", (A, "  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;\n  }\n\n  gtrace_file.close();\n", "  gtrace_file.close();\n  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;\n  }\n"))
bad("C24", "info-always", (A, "  if (Config::APOLLO_STORE_EXEC_INFO) {\n", "  if (Config::APOLLO_STORE_EXEC_INFO || Config::APOLLO_TRACE_CSV) {\n"))
bad("C24", "info-dataset", (A, "r->name << \", \" << r->idx << \"\\n\"", "r->name << \", \" << r->dataset.size() << \"\\n\""))
bad("C24", "info-last-missing", (A, "    for (auto it : regions) {\n      Region *r = it.second;\n      file_out", "    for (auto i = regions.begin(); std::next(i) != regions.end(); ++i) {\n      Region *r = i->second;\n      file_out"))
bad("C24", "rank-one", (A, "  mpiRank = 0;\n", "  mpiRank = 1;\n"))
bad("C24", "trace-closed-first", (R, "  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n", "  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n\n"))
bad("C24", "rank-size-swapped", (A, "  MPI_Comm_rank(apollo_mpi_comm, &mpiRank);\n  MPI_Comm_size(apollo_mpi_comm, &mpiSize);\n", "  MPI_Comm_rank(apollo_mpi_comm, &mpiSize);\n  MPI_Comm_size(apollo_mpi_comm, &mpiRank);\n"))
bad("C24", "counter-not-zero", (A, "  region_executions = 0;\n", "  region_executions = 1;\n"))
bad("C24", "reported-early", (A, "Apollo::~Apollo()\n{\n", "Apollo::~Apollo()\n{\n  std::cerr << \"Apollo: total region executions: \" << region_executions\n            << std::endl;\n"), (A, "  gtrace_file.close();\n\n  std::cerr << \"Apollo: total region executions: \" << region_executions\n            << std::endl;\n", "  gtrace_file.close();\n"))
quiet("C24", "iterators", (A, "  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;\n  }\n", "  for (auto it = regions.begin(); it != regions.end(); ++it)\n    delete it->second;\n  regions.clear();\n"))
quiet("C24", "one-put", (A, "r->name << \", \" << r->idx << \"\\n\"", "r->name << \", \" + std::to_string(r->idx) << std::endl"))
quiet("C24", "erase-loop", (A, "  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;\n  }\n", "  while (!regions.empty()) {\n    auto it = regions.begin();\n    Region *r = it->second;\n    regions.erase(it);\n    delete r;\n  }\n"))
quiet("C24", "no-close", (A, "  gtrace_file.close();\n\n  std::cerr", "  std::cerr"))
quiet("C24", "helper", (A, "Apollo::~Apollo()\n{\n", "static std::string infoFile() { return Config::APOLLO_OUTPUT_DIR + \"/\" + \"apollo_exec_info.csv\"; }\n\nApollo::~Apollo()\n{\n"), (A, "    std::ofstream file_out(Config::APOLLO_OUTPUT_DIR + \"/\" +\n                           \"apollo_exec_info.csv\");\n", "    std::ofstream file_out(infoFile());\n"))
quiet("C23", "milli-literal", (TH, "hipTime / 1000.0", "hipTime * 1e-3"))

# ---------------------------------------------------------------- C25
bad("C25", "asked-again", (R, "    trace_out << \"] policy \" << choice << std::endl;\n", "    trace_out << \"] policy \" << model->getIndex(context->features) << std::endl;\n"))
bad("C25", "trace-collects", (R, "  if (Config::APOLLO_TRACE_BEST_POLICIES) {\n", "  if (Config::APOLLO_TRACE_BEST_POLICIES) {\n    collectPendingContexts();\n"))
bad("C25", "csv-keeps-data", (R, "if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())", "if (Config::APOLLO_PERSISTENT_DATASETS or Config::APOLLO_TRACE_CSV or\n      model->isTrainable())"))
bad("C25", "csv-count", (R, "    trace_file << metric << \"\\n\";\n  }\n", "    trace_file << metric << \"\\n\";\n    apollo->region_executions++;\n  }\n"))
bad("C25", "policy-trace-resets", (R, "    std::cout << trace_out.str();\n    std::ofstream fout(\"rank-\"", "    std::cout << trace_out.str();\n    context->idx = 0;\n    std::ofstream fout(\"rank-\""))
bad("C25", "store-clears", (R, "    model->store(filename);\n\n    if (Config::APOLLO_RETRAIN_ENABLE)", "    model->store(filename);\n    dataset = Apollo::Dataset();\n\n    if (Config::APOLLO_RETRAIN_ENABLE)"))
bad("C25", "gather-skips", (A, "    // Do not re-insert this rank's measurements\n    if (rank == mpiRank) continue;\n", "    // Do not re-insert this rank's measurements\n    if (rank == mpiRank && !Config::APOLLO_TRACE_ALLGATHER) continue;\n"))
bad("C25", "train-else", (R, "    fout << trace_out.str();\n    fout.close();\n  }\n\n  model->train(dataset);\n", "    fout << trace_out.str();\n    fout.close();\n  } else\n    model->train(dataset);\n"))
bad("C25", "features-sorted", (R, "    trace_out << \"] policy \" << choice << std::endl;\n", "    trace_out << \"] policy \" << choice << std::endl;\n    std::sort(context->features.begin(), context->features.end());\n"))
bad("C25", "info-clears-idx", (A, "      file_out << r->name << \", \" << r->idx << \"\\n\";\n", "      file_out << r->name << \", \" << r->idx << \"\\n\";\n      r->idx = 0;\n"))
quiet("C25", "helper", (R, "int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n", "static void say(const std::string &s) { std::cout << s; }\n\nint Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n"), (R, "    std::cout << trace_out.str();\n    std::ofstream fout(\"rank-\"", "    say(trace_out.str());\n    std::ofstream fout(\"rank-\""))
quiet("C25", "flush", (R, "    trace_file << metric << \"\\n\";\n  }\n", "    trace_file << metric << std::endl;\n    std::fflush(stdout);\n  }\n"))
quiet("C25", "early-out", (R, "    fout << trace_out.str();\n    fout.close();\n  }\n\n  model->train(dataset);\n", "    if (!fout) fatal_error(\"cannot trace\");\n    fout << trace_out.str();\n    fout.close();\n  }\n\n  model->train(dataset);\n"))
quiet("C25", "size-shown", (R, "    trace_out << \"=== Rank \"", "    trace_out << dataset.size() << \"=== Rank \""))

# ---- C18
bad("C18", "no-append", (R, ",\n                       std::ofstream::app);", ");"))
bad("C18", "trunc", (R, "std::ofstream::app);", "std::ofstream::out | std::ofstream::trunc);"))
bad("C18", "context-policy", (R, "trace_out << \"] policy \" << choice", "trace_out << \"] policy \" << context->policy"))
bad("C18", "always", (R, "  if (Config::APOLLO_TRACE_POLICY) {", "  if (Config::APOLLO_TRACE_POLICY || choice > 0) {"))
bad("C18", "not-first", (R, "  if (Config::APOLLO_TRACE_POLICY) {", "  if (Config::APOLLO_TRACE_POLICY && context->idx > 0) {"))
bad("C18", "wrong-name", (R, "              << model->name << \" features [ \";", "              << model_name << \" features [ \";"))
bad("C18", "rounded", (R, "      trace_out << (int)f << \", \";\n    trace_out << \"] policy", "      trace_out << (int)(f + 0.5f) << \", \";\n    trace_out << \"] policy"))
bad("C18", "rank0", (R, "std::ofstream fout(\"rank-\" + std::to_string(rank) +", "std::ofstream fout(\"rank-\" + std::to_string(0) +"))
bad("C18", "no-file", (R, "    fout << trace_out.str();\n    fout.close();\n  }\n\n#if 0", "    fout.close();\n  }\n\n#if 0"))
bad("C18", "best-metric", (R, "\" T: \" << b.second.second", "\" T: \" << b.second.first"))
bad("C18", "best-response", (R, "trace_out << \"] P:\" << b.second.first", "trace_out << \"] P:\" << responses[0]"))
bad("C18", "best-late", (R, "  model->train(dataset);\n\n  if (Config::APOLLO_RETRAIN_ENABLE)\n#ifdef ENABLE_OPENCV\n    time_model", "  if (Config::APOLLO_RETRAIN_ENABLE)\n#ifdef ENABLE_OPENCV\n    time_model"), (R, "  if (Config::APOLLO_TRACE_BEST_POLICIES) {", "  model->train(dataset);\n  if (Config::APOLLO_TRACE_BEST_POLICIES) {"))
bad("C18", "best-path", (R, "std::ofstream fout(\"step-\" + std::to_string(step)", "std::ofstream fout(\"step-\" + std::to_string(idx)"))
bad("C18", "best-skip", (R, "    for (auto &b : min_metric_policies) {\n      trace_out << \"[ \";", "    for (auto &b : min_metric_policies) {\n      if (b.second.first == 0) continue;\n      trace_out << \"[ \";"))
quiet("C18", "direct", (R, "    std::cout << trace_out.str();\n    std::ofstream fout(\"rank-\"", "    const std::string line = trace_out.str();\n    std::cout << line << std::flush;\n    std::ofstream fout(\"rank-\""))
quiet("C18", "index-loop", (R, "    for (auto &f : context->features)\n      trace_out << (int)f << \", \";", "    for (size_t i = 0; i < context->features.size(); ++i)\n      trace_out << static_cast<int>(context->features[i]) << \", \";"))
quiet("C18", "helper", (R, "int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n", "static void list(std::ostream &os, const std::vector<float> &fs)\n{\n  os << \"[ \";\n  for (auto f : fs) os << (int)f << \", \";\n  os << \"]\";\n}\n\nint Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n"), (R, "<< \" features [ \";\n    for (auto &f : context->features)\n      trace_out << (int)f << \", \";\n    trace_out << \"] policy \"", "<< \" features \";\n    list(trace_out, context->features);\n    trace_out << \" policy \""))
quiet("C18", "append-helper", (R, "int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n", "static void append(const std::string &p, const std::string &s)\n{\n  std::ofstream f;\n  f.open(p, std::ios::out | std::ios::app);\n  f << s;\n}\n\nint Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{\n"), (R, "    std::ofstream fout(\"rank-\" + std::to_string(rank) + \"-policies.txt\",\n                       std::ofstream::app);\n    fout << trace_out.str();\n    fout.close();", "    append(\"rank-\" + std::to_string(rank) + \"-policies.txt\", trace_out.str());"))
quiet("C18", "no-stringstream", (R, "    std::stringstream trace_out;\n    int rank;\n    rank = apollo->mpiRank;", "    int rank = apollo->mpiRank;\n    std::ostringstream trace_out;"))

# ---------------------------------------------------------------- C26
K = "src/connectors/kokkos/kokkos-connector.cpp"
bad("C26", "no-divide", (K, "    policyChoice /= set_size;\n", ""))
bad("C26", "divide-first", (K, "    int local_policy_choice = policyChoice % set_size;\n", "    policyChoice /= set_size;\n    int local_policy_choice = policyChoice % set_size;\n"), (K, "                          (tuningValues[x].metadata));\n    policyChoice /= set_size;\n", "                          (tuningValues[x].metadata));\n"))
bad("C26", "mod-total", (K, "policyChoice % set_size;", "policyChoice % choiceSpaceSize;"))
bad("C26", "sum-of-sizes", (K, "    choiceSpaceSize *= set_size;", "    choiceSpaceSize += set_size;"))
bad("C26", "loop-from-one", (K, "  int64_t choiceSpaceSize = 1;\n  for (int x = 0; x < numTuningVariables; ++x) {", "  int64_t choiceSpaceSize = 1;\n  for (int x = 1; x < numTuningVariables; ++x) {"))
bad("C26", "no-candidates-ok", (K, "    if (set_size <= 0) {", "    if (set_size < 0) {"))
bad("C26", "too-many", (K, "  if (numContextVariables + numTuningVariables > max_variables) {", "  if (numTuningVariables > max_variables) {"))
bad("C26", "too-many-off-by-one", (K, "numContextVariables + numTuningVariables > max_variables) {", "numContextVariables + numTuningVariables > max_variables + 1) {"))
bad("C26", "num-variables", (K, "  tuningProblem.num_variables = numValidVariables;", "  tuningProblem.num_variables = numContextVariables;"))
bad("C26", "tuning-not-in-problem", (K, "    tuningProblem.variable_ids[numValidVariables++] = tuningValues[x];", "    tuningProblem.variable_ids[numValidVariables++] = tuningValues[0];"))
bad("C26", "features-tuning", (K, "variableToFloat(contextValues[x]));", "variableToFloat(tuningValues[x]));"))
bad("C26", "int-feature-bits", (K, "return static_cast<float>(value.value.int_value);", "return static_cast<float>(value.value.double_value);"))
bad("C26", "features-late", (K, "  int policyChoice = region->getPolicyIndex(context);\n", ""), (K, "  tuned_contexts[contextId] = std::make_pair(region, context);\n", "  tuned_contexts[contextId] = std::make_pair(region, context);\n  int policyChoice = region->getPolicyIndex(context);\n"))
bad("C26", "region-features", (K, "      region = new Apollo::Region(numContextVariables,\n                                  name.c_str(),\n                                  choiceSpaceSize);", "      region = new Apollo::Region(numContextVariables + numTuningVariables,\n                                  name.c_str(),\n                                  choiceSpaceSize);"))
bad("C26", "region-not-kept", (K, "    iter.first->second = std::make_pair(name, region);\n  }\n  auto region = iter.first->second.second;", "    iter.first->second = std::make_pair(name, region);\n  }\n  auto region = tuning_regions.begin()->second.second;"))
bad("C26", "context-by-insert", (K, "  tuned_contexts[contextId] = std::make_pair(region, context);", "  tuned_contexts.insert(std::make_pair(contextId, std::make_pair(region, context)));"))
bad("C26", "never-forgotten", (K, "  tuned_contexts.erase(contextId);\n", ""))
bad("C26", "forget-all", (K, "  tuned_contexts.erase(contextId);\n", "  tuned_contexts.clear();\n"))
bad("C26", "end-current", (K, "  region->end(context);\n", "  region->end();\n"))
bad("C26", "flush-more", (K, "  if ((++encounter % flush_interval) == 0) {", "  if ((++encounter % flush_interval) <= 1) {"))
bad("C26", "flush-counts-starts", (K, "  auto search = tuned_contexts.find(contextId);\n  if (search == tuned_contexts.end()) {\n    return;\n  }\n", "  static int encounter;\n  ++encounter;\n  auto search = tuned_contexts.find(contextId);\n  if (search == tuned_contexts.end()) {\n    return;\n  }\n"), (K, "  static int encounter;\n  if ((++encounter % flush_interval) == 0) {", "  if ((encounter % flush_interval) == 0) {"))
bad("C26", "flush-step", (K, "flushAllRegionMeasurements(0);", "flushAllRegionMeasurements(encounter);"))
bad("C26", "order-sizes-only", (K, "      if (l.variable_ids[x].type_id != r.variable_ids[x].type_id) {\n        return l.variable_ids[x].type_id < r.variable_ids[x].type_id;\n      }\n", ""))
bad("C26", "order-first-only", (K, "    for (int x = 0; x < l.num_variables; ++x) {\n      if (l.variable_ids[x].type_id !=", "    for (int x = 1; x < l.num_variables; ++x) {\n      if (l.variable_ids[x].type_id !="))
bad("C26", "int-open-upper", (K, "(!in.openUpper) ? in.upper.int_value", "in.openUpper ? in.upper.int_value"))
bad("C26", "int-count", (K, "      return 1 + ((((!in.openUpper)", "      return ((((!in.openUpper)"))
bad("C26", "int-lower", (K, "(with_this.openLower ? (with_this.lower.int_value + 1)\n                               : with_this.lower.int_value);", "with_this.lower.int_value;"))
bad("C26", "int-step", (K, "value.int_value = lower + (x * with_this.step.int_value);", "value.int_value = lower + x;"))
bad("C26", "double-step", (K, "value.double_value = lower + (x * with_this.step.double_value);", "value.double_value = lower + ((x + 1) * with_this.step.double_value);"))
bad("C26", "set-string", (K, "      strncpy(holder.string_value, values.string_value[index], 64);", "      strncpy(holder.string_value, values.string_value[0], 64);"))
bad("C26", "set-int-as-double", (K, "      holder.int_value = values.int_value[index];", "      holder.int_value = values.double_value[index];"))
bad("C26", "set-short", (K, "        for (int x = 0; x < candidate_set_size; ++x) {", "        for (int x = 0; x < candidate_set_size - 1; ++x) {"))
bad("C26", "name-unterminated", (K, "  strncpy(metadata->name, name, 64);\n  metadata->name[64] = '\\0';\n  info->toolProvidedInfo = metadata;\n  associate", "  strncpy(metadata->name, name, 64);\n  info->toolProvidedInfo = metadata;\n  associate"))
bad("C26", "stored-place", (K, 'std::string prefix = "RandomForest-step-0-rank-0-";', 'std::string prefix = "RandomForest-latest-step-0-rank-0-";'))
bad("C26", "stored-loaded-elsewhere", (K, '"RandomForest",\n                                  final_name);', '"RandomForest",\n                                  name);'))
bad("C26", "converged-counted", (K, "                                  final_name);\n    } else {", "                                  final_name);\n      ++num_unconverged_regions;\n    } else {"))
bad("C26", "fence-always", (K, "(helper_functions.fence != nullptr) && (num_unconverged_regions > 0)", "(helper_functions.fence != nullptr)"))
bad("C26", "fence-null", (K, "(helper_functions.fence != nullptr) && (num_unconverged_regions > 0)", "(num_unconverged_regions > 0)"))
bad("C26", "end-no-fence", (K, "extern \"C\" void kokkosp_end_parallel_scan(const uint64_t kID)\n{\n  uint32_t devID = kID;\n  invoke_fence(devID);\n", "extern \"C\" void kokkosp_end_parallel_scan(const uint64_t kID)\n{\n  uint32_t devID = kID;\n"))
bad("C26", "kernel-number", (K, "extern \"C\" void kokkosp_begin_parallel_reduce(const char *name,\n                                              const uint32_t devID,\n                                              uint64_t *kID)\n{\n  invoke_fence(devID);\n  *kID = devID;\n", "extern \"C\" void kokkosp_begin_parallel_reduce(const char *name,\n                                              const uint32_t devID,\n                                              uint64_t *kID)\n{\n  static uint64_t next;\n  invoke_fence(devID);\n  *kID = next++;\n"))
bad("C26", "late-setting", (K, '  putenv(const_cast<char *>("APOLLO_COLLECTIVE_TRAINING=0"));\n', ''), (K, "  apolloRuntime = Apollo::instance();\n", '  apolloRuntime = Apollo::instance();\n  putenv(const_cast<char *>("APOLLO_COLLECTIVE_TRAINING=0"));\n'))
bad("C26", "both-trainings", (K, '"APOLLO_COLLECTIVE_TRAINING=0"', '"APOLLO_COLLECTIVE_TRAINING=1"'))
bad("C26", "value-metadata", (K, "                          (tuningValues[x].metadata));\n    policyChoice", "                          metadata->candidate_values[0].metadata);\n    policyChoice"))
bad("C26", "first-candidate", (K, "metadata->candidate_values[local_policy_choice].value", "metadata->candidate_values[0].value"))
quiet("C26", "setenv", (K, '  putenv(const_cast<char *>("APOLLO_STORE_MODELS=1"));\n', '  setenv("APOLLO_STORE_MODELS", "1", 1);\n'))
quiet("C26", "end-ref", (K, "  auto region_context = search->second;\n  auto region = region_context.first;\n  auto context = region_context.second;\n  region->end(context);\n  tuned_contexts.erase(contextId);\n", "  Apollo::Region *region = search->second.first;\n  region->end(search->second.second);\n  tuned_contexts.erase(search);\n"))
quiet("C26", "end-count", (K, "  auto search = tuned_contexts.find(contextId);\n  if (search == tuned_contexts.end()) {\n    return;\n  }\n  auto region_context = search->second;\n", "  if (tuned_contexts.count(contextId) == 0) return;\n  auto region_context = tuned_contexts[contextId];\n"))
quiet("C26", "encounter-split", (K, "  static int encounter;\n  if ((++encounter % flush_interval) == 0) {", "  static int encounter = 0;\n  encounter++;\n  if (encounter % flush_interval == 0) {"))
quiet("C26", "choice-order", (K, "    int set_size = metadata->candidate_set_size;\n    int local_policy_choice = policyChoice % set_size;\n    tuningValues[x] = mvv(tuningValues[x].type_id,\n                          metadata->candidate_values[local_policy_choice].value,\n                          (tuningValues[x].metadata));\n    policyChoice /= set_size;\n", "    const int count = metadata->candidate_set_size;\n    const int choice = policyChoice % count;\n    policyChoice = policyChoice / count;\n    auto &chosen = metadata->candidate_values[choice];\n    tuningValues[x] = mvv(tuningValues[x].type_id, chosen.value, tuningValues[x].metadata);\n"))
quiet("C26", "value-only", (K, "    tuningValues[x] = mvv(tuningValues[x].type_id,\n                          metadata->candidate_values[local_policy_choice].value,\n                          (tuningValues[x].metadata));\n", "    tuningValues[x].value = metadata->candidate_values[local_policy_choice].value;\n"))
quiet("C26", "region-helper", (K, "    if (file_exists(final_name)) {\n", "    const bool known = file_exists(final_name);\n    if (known) {\n"))
quiet("C26", "region-find", (K, "  auto iter =\n      tuning_regions.emplace(tuningProblem, std::make_pair(\"\", nullptr));\n  if (iter.second) {", "  if (tuning_regions.find(tuningProblem) == tuning_regions.end()) {"), (K, "    iter.first->second = std::make_pair(name, region);\n  }\n  auto region = iter.first->second.second;", "    tuning_regions[tuningProblem] = std::make_pair(name, region);\n  }\n  auto region = tuning_regions[tuningProblem].second;"))
quiet("C26", "fence-early", (K, "  if ((helper_functions.fence != nullptr) && (num_unconverged_regions > 0)) {\n    helper_functions.fence(devID);\n  }\n", "  if (helper_functions.fence == nullptr) return;\n  if (num_unconverged_regions == 0) return;\n  helper_functions.fence(devID);\n"))
quiet("C26", "int-range", (K, "      return 1 + ((((!in.openUpper) ? in.upper.int_value\n                                    : (in.upper.int_value - 1)) -\n                   ((!in.openLower) ? in.lower.int_value\n                                    : (in.lower.int_value + 1))) /\n                  in.step.int_value);\n", "    {\n      const int64_t first = in.lower.int_value + (in.openLower ? 1 : 0);\n      const int64_t last = in.upper.int_value - (in.openUpper ? 1 : 0);\n      return (last - first) / in.step.int_value + 1;\n    }\n"))
quiet("C26", "range-lower-hoist", (K, "    for (int x = 0; x < num_slices; ++x) {\n      auto lower =\n          (with_this.openLower ? (with_this.lower.int_value + 1)\n                               : with_this.lower.int_value);\n", "    auto lower = with_this.lower.int_value;\n    if (with_this.openLower) lower += 1;\n    for (int x = 0; x < num_slices; ++x) {\n"))
quiet("C26", "range-running", (K, "    for (int x = 0; x < num_slices; ++x) {\n      auto lower =\n          (with_this.openLower ? (with_this.lower.int_value + 1)\n                               : with_this.lower.int_value);\n      Kokkos_Tools_VariableValue_ValueUnion value;\n      value.int_value = lower + (x * with_this.step.int_value);\n", "    int64_t at = with_this.lower.int_value + (with_this.openLower ? 1 : 0);\n    for (int x = 0; x < num_slices; ++x, at += with_this.step.int_value) {\n      Kokkos_Tools_VariableValue_ValueUnion value;\n      value.int_value = at;\n"))
quiet("C26", "less-tie", (K, "    if (l.num_variables != r.num_variables) {\n      return l.num_variables < r.num_variables;\n    }\n", "    if (l.num_variables < r.num_variables) return true;\n    if (r.num_variables < l.num_variables) return false;\n"))
quiet("C26", "declare-helper", (K, "extern \"C\" void kokkosp_declare_output_type(\n", "static VariableDatabaseData *new_metadata(const char *name)\n{\n  auto *metadata = new VariableDatabaseData();\n  metadata->name = (char *)malloc(sizeof(char) * 65);\n  strncpy(metadata->name, name, 64);\n  metadata->name[64] = '\\0';\n  return metadata;\n}\n\nextern \"C\" void kokkosp_declare_output_type(\n"), (K, "  auto *metadata = new VariableDatabaseData();\n  metadata->name = (char *)malloc(sizeof(char) * 65);\n  strncpy(metadata->name, name, 64);\n  metadata->name[64] = '\\0';\n  info->toolProvidedInfo = metadata;\n  associate_candidates(id, info);\n", "  info->toolProvidedInfo = new_metadata(name);\n  associate_candidates(id, info);\n"))
quiet("C26", "switch-to-if", (K, "  switch (info->valueQuantity) {\n    case Kokkos::Tools::Experimental::CandidateValueType::kokkos_value_set:\n      candidate_set_size = info->candidates.set.size;\n      break;\n    case CandidateValueType::kokkos_value_range:\n      candidate_set_size =\n          count_range_slices(info->candidates.range, info->type);\n      break;\n    case CandidateValueType::kokkos_value_unbounded:\n      candidate_set_size = 0;\n      break;\n  }\n", "  if (info->valueQuantity == CandidateValueType::kokkos_value_set)\n    candidate_set_size = info->candidates.set.size;\n  else if (info->valueQuantity == CandidateValueType::kokkos_value_range)\n    candidate_set_size = count_range_slices(info->candidates.range, info->type);\n"))

# ---------------------------------------------------------------- second, independent round
A = "src/Apollo.cpp"
D = "src/Dataset.cpp"
MF = "src/ModelFactory.cpp"
PN = "src/models/PolicyNet.cpp"
DT = "src/models/impl/DecisionTreeImpl.cpp"
RF = "src/models/impl/RandomForestImpl.cpp"
PA = "src/helpers/Parser.cpp"
bad("C01", "x-reserve-becomes-resize", (R, "context->features.reserve(num_features);", "context->features.resize(num_features);"))
bad("C01", "x-too-many-features-dropped", (R, "  context->features.push_back(value);", "  if (context->features.size() < num_features) context->features.push_back(value);"))
bad("C01", "x-sorted-by-dataset-map", ("src/models/DatasetMap.cpp", "  int policy = best_policies[features].first;", "  int policy = best_policies[features].first;\n  features.clear();"))
bad("C01", "x-choice-of-current", (R, "  int choice = model->getIndex(context->features);", "  int choice = model->getIndex((current_context ? current_context : context)->features);"))
bad("C01", "x-clear-after-end-only", (R, "      context->features.clear();\n", "      if (idx > 1) context->features.clear();\n"))
bad("C02", "x-sync-metric-before-stop", (R, "  context->timer->stop();\n  if (context == &sync_context) {\n    double metric;\n    context->timer->isDone(metric);", "  double metric;\n  context->timer->isDone(metric);\n  context->timer->stop();\n  if (context == &sync_context) {"))
bad("C02", "x-count-in-end", (R, "  apollo->region_executions++;\n\n  autoTrain();", "  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable()) apollo->region_executions++;\n\n  autoTrain();"))
bad("C02", "x-destructor-once", (R, "  while (pending_contexts.size() > 0)\n    collectPendingContexts();", "  if (pending_contexts.size() > 0)\n    collectPendingContexts();"))
bad("C02", "x-end-metric-not-pending", (R, "  collectContext(context, metric);\n\n  collectPendingContexts();\n\n  return;", "  collectContext(context, metric);\n\n  pending_contexts.clear();\n\n  return;"))
bad("C02", "x-erase-prefix", (R, "std::remove_if(pending_contexts.begin(),\n                                        pending_contexts.end(),\n                                        isDone)", "std::partition(pending_contexts.begin(),\n                                        pending_contexts.end(),\n                                        isDone)"))
bad("C02", "x-trainable-at-begin", (R, "  apollo->region_executions++;\n\n  autoTrain();\n\n  destroyRegionContext(context);", "  apollo->region_executions++;\n\n  destroyRegionContext(context);\n  if (context->idx + 1 == idx) autoTrain();\n"))
bad("C03", "x-weighted-mean", (D, "it->second = .5 * it->second + .5 * metric;", "it->second = it->second + (metric - it->second) * (metric > it->second ? .5 : .25);"))
bad("C03", "x-merge-averages-self", (D, "    auto features = d.first.first;\n    auto policy = d.first.second;\n    auto metric = d.second;\n    insert(features, policy, metric);", "    if (!data.emplace(d).second) data[d.first] = d.second;"))
bad("C03", "x-merge-moves", (D, "  for (auto &d : ds.data) {\n    auto features = d.first.first;", "  for (auto &d : ds.data) {\n    auto features = std::move(const_cast<std::vector<float> &>(d.first.first));"))
bad("C03", "x-merge-empty-swap", (D, "void Apollo::Dataset::insert(Apollo::Dataset &ds)\n{\n", "void Apollo::Dataset::insert(Apollo::Dataset &ds)\n{\n  if (data.empty()) {\n    data.swap(ds.data);\n    return;\n  }\n"))
bad("C03", "x-export-unique-features", (D, "  for (const auto &d : data) {\n    const auto &features = d.first.first;\n    const auto &policy = d.first.second;\n    const auto &metric = d.second;\n", "  for (const auto &d : data) {\n    const auto &features = d.first.first;\n    const auto &policy = d.first.second;\n    const auto &metric = d.second;\n    if (!vector.empty() && std::get<0>(vector.back()) == features && std::get<2>(vector.back()) == metric) continue;\n"))
bad("C04", "x-tie-with-relative", (D, "if (avg < prev_avg) best", "if (avg < prev_avg * .999) best"))
bad("C04", "x-first-policy-zero", (D, "std::make_pair(features, std::make_pair(policy, avg))", "std::make_pair(features, std::make_pair(policy, avg > 0 ? avg : 1e9))"))
bad("C04", "x-negative-skipped", (D, "    auto iter = best_policies.find(features);", "    if (policy < 0) continue;\n    auto iter = best_policies.find(features);"))
bad("C04", "x-forest-features-only", ("src/models/RandomForest.cpp", "  rfc->train(features, responses);", "  std::sort(responses.begin(), responses.end());\n  rfc->train(features, responses);"))
bad("C04", "x-map-keeps-old", ("src/models/DatasetMap.cpp", "  dataset.findMinMetricPolicyByFeatures(features, policies, best_policies);", "  std::map<std::vector<float>, std::pair<int, double>> now;\n  dataset.findMinMetricPolicyByFeatures(features, policies, now);\n  best_policies.insert(now.begin(), now.end());"))
bad("C05", "x-rr-static", ("src/models/RoundRobin.cpp", "  int choice = (last_policy + 1) % policy_count;\n  last_policy = choice;", "  static int last = -1;\n  int choice = (last + 1) % policy_count;\n  last = choice;"))
bad("C05", "x-rr-restart-on-load", ("include/apollo/models/RoundRobin.h", "void load(const std::string &filename){};", "void load(const std::string &filename){ last_policy = -1; };"))
bad("C05", "x-random-clamped", ("src/models/Random.cpp", "  if (policy_count > 1) {", "  if (policy_count > 2) {"))
bad("C05", "x-optimal-cycles", ("src/models/Optimal.cpp", "  optimal_policy.pop_front();\n", "  optimal_policy.pop_front();\n  if (optimal_policy.empty()) optimal_policy.push_back(policy);\n"))
bad("C06", "x-explorer-gone", ("src/models/DecisionTree.cpp", "  if (!trainable) return dtree->predict(features);\n\n  return explorer->getIndex(features);", "  if (!trainable && explorer) return dtree->predict(features);\n  if (!explorer) return 0;\n\n  return explorer->getIndex(features);"))
bad("C06", "x-store-ends-training", ("src/models/RandomForest.cpp", "{ rfc->save(filename); }", "{ trainable = false; rfc->save(filename); }"))
bad("C06", "x-depth-trees-swapped", ("src/models/RandomForest.cpp", "std::make_unique<RandomForestImpl>(num_policies, num_trees, max_depth);", "std::make_unique<RandomForestImpl>(num_policies, max_depth, num_trees);"))
bad("C06", "x-load-only-if-untrained", ("src/models/DecisionTree.cpp", "  trainable = false;\n#ifdef ENABLE_OPENCV\n  // The", "  if (!trainable) return;\n  trainable = false;\n#ifdef ENABLE_OPENCV\n  // The"))
bad("C07", "x-classes-kept", (DT, "  classes.clear();\n", "  if (classes.size() > num_classes) classes.clear();\n"))
bad("C07", "x-size-le-2", (DT, "  if (Begin == End) return node;", "  if (std::distance(Begin, End) <= 2) return node;"))
bad("C07", "x-last-gap-skipped", (DT, "    for (Iterator It = std::next(Begin); It != End; ++It) {", "    for (Iterator It = std::next(Begin); std::next(It) != End || It == std::next(Begin); ++It) {"))
bad("C07", "x-second-sort-missing", (DT, "  // Sort to selected feature idx to validate the returned split iterator.\n  std::sort(Begin,", "  // Sort to selected feature idx to validate the returned split iterator.\n  if (split_feature_idx + 1 < (int)num_features) std::sort(std::next(Begin),"))
bad("C07", "x-data-moved-response", (DT, "    data.emplace_back(std::move(features[i]), responses[i]);\n\n  root = build_tree(data.begin(),\n                    data.end(),\n                    /* max_depth */ max_depth,\n                    /* depth */ 0);\n\n#ifdef ENABLE_JIT_DTREE\n  compile_and_link_jit_evaluate_function();\n#endif\n}\n\nDecisionTreeImpl::DecisionTreeImpl", "    if (std::find(classes.begin(), classes.end(), responses[i]) != std::prev(classes.end()) || classes.size() < 4) data.emplace_back(std::move(features[i]), responses[i]);\n\n  root = build_tree(data.begin(),\n                    data.end(),\n                    /* max_depth */ max_depth,\n                    /* depth */ 0);\n\n#ifdef ENABLE_JIT_DTREE\n  compile_and_link_jit_evaluate_function();\n#endif\n}\n\nDecisionTreeImpl::DecisionTreeImpl"))
bad("C07", "x-gini-int-count", (DT, "    float p = (float)count / n_total;", "    float p = (float)(count / n_total);"))
bad("C07", "x-jit-le", (DT, '''"] < " & node.threshold''', '''"] <= " & node.threshold'''))
bad("C08", "x-same-sample-all-trees", (RF, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;", "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    generator.seed(42);\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;"))
bad("C08", "x-samples-accumulate", (RF, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;", "  rfc.clear();\n  std::vector<std::vector<float>> sample_features;\n  std::vector<int> sample_responses;\n  for (unsigned i = 0; i < num_trees; i++) {"))
bad("C08", "x-ge-class0", (RF, "if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;", "if (count_per_class[i] > count_per_class[class_idx] + (class_idx == 0)) class_idx = i;"))
bad("C11", "x-latest-by-step", (R, '''               "/" + model->name +
               "-latest"''', '''               "/" + model->name +
               (step ? "-latest" : "-first") +'''))
bad("C11", "x-clear-after-train", (R, "  model->train(dataset);\n\n  if (Config::APOLLO_RETRAIN_ENABLE)", "  model->train(dataset);\n  if (!model->isTrainable()) dataset.clear();\n\n  if (Config::APOLLO_RETRAIN_ENABLE)"))
bad("C11", "x-collect-last", (R, "  if (doCollectPendingContexts) collectPendingContexts();\n\n  if (dataset.size() <= 0) return;", "  if (dataset.size() <= 0) return;\n\n  if (doCollectPendingContexts) collectPendingContexts();"))
bad("C11", "x-gather-only-region-model", (A, "  if (Config::APOLLO_COLLECTIVE_TRAINING) {\n    // std", "  if (Config::APOLLO_COLLECTIVE_TRAINING && !Config::APOLLO_SINGLE_MODEL) {\n    // std"))
bad("C11", "x-single-first-only", (A, "if (reg->model->isTrainable()) reg->model->train(merged_dataset);", "if (reg->model->isTrainable()) { reg->model->train(merged_dataset); merged_dataset.clear(); }"))
bad("C12", "x-count-after", (R, "  apollo->region_executions++;\n\n  autoTrain();", "  autoTrain();\n\n  apollo->region_executions++;"))
bad("C12", "x-min-strict", (R, "min_training_data <= dataset.size()", "min_training_data < dataset.size()"))
bad("C12", "x-context-idx", (R, "(idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0", "((idx - 1) % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0"))
bad("C12", "x-period-not-disabled", (R, "  Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;\n", ""))
bad("C12", "x-persistent-no-autotrain", (R, "    // size is large enough.\n    autoTrain();", "    // size is large enough.\n    if (dataset.size() > min_training_data) autoTrain();"))
bad("C12", "x-region-train-collects", (R, "    train(idx, /* doCollectPendingContexts */ false);\n  } else", "    train(idx);\n  } else"))
bad("C08", "x-generator-per-tree", (RF, "  // Uniform random generator using Mersenne-Twister for randomness.\n  std::mt19937 generator;\n", ""), (RF, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n", "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::mt19937 generator;\n"))
quiet("C08", "x-seed-per-tree", (RF, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n", "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    generator.seed(i);\n"))
bad("C05", "x-random-local-generator", ("src/models/Random.cpp", "    choice = random_dist(random_gen);", "    std::mt19937 gen;\n    choice = random_dist(gen);"))
bad("C05", "x-random-reseeded", ("src/models/Random.cpp", "    choice = random_dist(random_gen);", "    random_gen.seed(policy_count);\n    choice = random_dist(random_gen);"))
quiet("C05", "x-random-seed-direct", ("src/models/Random.cpp", "  random_gen = std::mt19937(random_dev());", "  random_gen.seed(random_dev());"))

# ---- second independent round, C13 to C26
PN_ = "src/models/PolicyNet.cpp"
PA_ = "src/helpers/Parser.cpp"
bad("C13", "y-own-rank-by-size", (A, "if (rank == mpiRank) continue;", "if (rank >= mpiRank) continue;"))
bad("C13", "y-last-region-skipped", (A, "  while (pos < recv_size) {\n    int rank;", "  while (pos + 64 < recv_size) {\n    int rank;"))
bad("C13", "y-disp-of-self", (A, "disp[i] = disp[i - 1] + recv_size_per_rank[i - 1];", "disp[i] = disp[i - 1] + recv_size_per_rank[i];"))
bad("C13", "y-skip-empty-rank", (A, "  char *sendbuf = (char *)malloc(send_size);", "  if (send_size == 0 && mpiSize == 1) return;\n  if (send_size == 0) return;\n  char *sendbuf = (char *)malloc(send_size);"))
bad("C13", "y-policy-short", (A, "MPI_Unpack(recvbuf, recv_size, &pos, &policy, 1, MPI_INT", "policy = 0;\n    MPI_Unpack(recvbuf, recv_size, &pos, &policy, 1, MPI_CHAR"))
bad("C13", "y-leading-feature-only", (A, "      features.push_back(value);\n", "      if (j < 8) features.push_back(value);\n"))
bad("C13", "y-name-63", (A, "    MPI_Pack(reg->name, 64, MPI_CHAR", "    MPI_Pack(reg->name, strlen(reg->name) + 1, MPI_CHAR"))
bad("C13", "y-gather-if-many", (A, "    gatherCollectiveTrainingData(step);", "    if (!regions.empty()) gatherCollectiveTrainingData(step);"))
bad("C13", "y-world", (A, "MPI_Comm_rank(apollo_mpi_comm, &mpiRank);", "MPI_Comm_rank(MPI_COMM_SELF, &mpiRank);"))
bad("C14", "y-region-period-swapped", (A, '''safeGetEnv("APOLLO_PER_REGION_TRAIN_PERIOD", "0")''', '''safeGetEnv("APOLLO_PER_REGION_TRAIN_PERIOD", getenv("APOLLO_GLOBAL_TRAIN_PERIOD") ? "1" : "0")'''))
bad("C14", "y-eexist-throws", (A, "if (ret != 0 && errno != EEXIST)", "if (ret != 0 && errno == EEXIST)"))
bad("C14", "y-models-with-traces", (A, "  if (Config::APOLLO_STORE_MODELS)\n    apolloUtils::createDir", "  if (Config::APOLLO_STORE_MODELS && !Config::APOLLO_TRACE_CSV)\n    apolloUtils::createDir"))
bad("C14", "y-empty-is-default", (A, "  if (c == NULL) {\n    if (not silent)", "  if (c == NULL || (c[0] == '0' && c[1] == '\\0')) {\n    if (not silent)"))
bad("C14", "y-stof-as-int", (A, "Config::APOLLO_RETRAIN_TIME_THRESHOLD = std::stof(", "Config::APOLLO_RETRAIN_TIME_THRESHOLD = std::stoi("))
bad("C14", "y-both-models-warn", (A, '''    std::cerr << "Both global and region modeling cannot be enabled"
              << std::endl;
    abort();''', '''    std::cerr << "Both global and region modeling cannot be enabled"
              << std::endl;
    Config::APOLLO_REGION_MODEL = 0;'''))
bad("C15", "y-last-param-lost", (R, "  } while (std::string::npos != pos);\n", "  } while (std::string::npos != pos && model_params_str.find('=') != std::string::npos);\n"))
bad("C15", "y-key-rfind", (R, 'size_t kv_pos = keyval_str.find("=");', 'size_t kv_pos = keyval_str.rfind("=");'))
bad("C15", "y-forest-accepts-lr", (R, '''      if (entry.first != "num_trees" && entry.first''', '''      if (entry.first != "lr" && entry.first != "num_trees" && entry.first'''))
bad("C15", "y-validate-first-only", (R, '''        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy PolicyNet");
    return;''', '''        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy PolicyNet");
      else break;
    return;'''))
bad("C15", "y-second-wins", (R, "      model_params.emplace(key, val);", "      if (!val.empty()) model_params.emplace(key, val);"))
bad("C16", "y-key-truncated", (PN_, "    bits = (uint64_t)feature;", "    bits = (uint32_t)feature;"))
bad("C16", "y-baseline-before", (PN_, "  double baseline = rewardMovingAvg / (1 - std::pow(beta, ++trainCount));", "  double baseline = rewardMovingAvg / (1 - std::pow(beta, trainCount++));"))
bad("C16", "y-cache-cleared-before", (PN_, "  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();", "  if (!measures.empty()) actionProbabilityMap.erase(actionProbabilityMap.begin(), std::next(actionProbabilityMap.begin(), actionProbabilityMap.size() / 2));\n  trainNet(states, actions, rewards);"))
bad("C16", "y-threshold-gates-average", (PN_, "  if (baseline < threshold) return;\n\n  // Create", "  if (baseline <= threshold) return;\n\n  // Create"))
bad("C16", "y-msb-first", (PN_, "        evalState[index + j] = bits[j];", "        evalState[index + j] = bits[63 - j];"))
bad("C16", "y-greedy-after", (PN_, "  int policyIndex = d(gen);", "  int policyIndex = actionProbs[0] > .99 ? 0 : d(gen);"))
bad("C16", "y-insert-replaced", (PN_, "    trainActions[i] = actions[i];", "    trainActions[i] = actions[i] % (numPolicies > 1 ? numPolicies - 1 : 1);"))
bad("C17", "y-comment-anywhere", (PA_, "    while (!std::isspace(*it)) {\n      buffer[idx]", "    while (!std::isspace(*it) && *it != '#') {\n      buffer[idx]"))
bad("C17", "y-buffer-limit", (PA_, "if (idx >= BUFSIZE) fatal_error", "if (idx > BUFSIZE) fatal_error"))
bad("C17", "y-prefix", (PA_, "  return (std::strcmp(token, s) == 0);", "  return (std::strncmp(token, s, std::strlen(token)) == 0);"))
bad("C18", "y-trace-before-choice", (R, '    trace_out << "] policy " << choice << std::endl;', '    trace_out << "] policy " << context->policy << std::endl;'))
bad("C18", "y-truncate", (R, "                       std::ofstream::app);", "                       idx > 1 ? std::ofstream::app : std::ofstream::out);"))
bad("C18", "y-best-others", (R, '      trace_out << "] P:" << b.second.first << " T: " << b.second.second', '      trace_out << "] P:" << responses.front() << " T: " << b.second.second'))
bad("C18", "y-after-training-only", (R, "  if (Config::APOLLO_TRACE_BEST_POLICIES) {", "  if (Config::APOLLO_TRACE_BEST_POLICIES && doCollectPendingContexts) {"))
bad("C19", "y-header-one-less", (R, "    for (int i = 0; i < num_features; i++)\n      trace_file", "    for (int i = 1; i <= num_features; i++)\n      trace_file"))
bad("C19", "y-global-name", (A, '"/trace-rank-" +\n                      std::to_string(mpiRank)', '"/trace-rank-" +\n                      std::to_string(mpiSize)'))
bad("C19", "y-open-unchecked", (A, '    if (gtrace_file.fail()) fatal_error("Error opening trace file " + fname);\n', ''))
bad("C21", "y-name-not-terminated", (R, "  name[sizeof(name) - 1] = '\\0';\n", "  name[strlen(regionName) < sizeof(name) ? strlen(regionName) : sizeof(name)] = '\\0';\n"))
bad("C21", "y-static-region-prefix", (R, "auto it = model_params.find(name);", "auto it = model_params.find(regionName);"))
bad("C21", "y-load-file-ignored", (R, '      model_file = model_params["load"];', '      model_file = Config::APOLLO_OUTPUT_DIR + "/" + model_params["load"];'))
bad("C21", "y-optimal-no-rank", (R, '''"-rank-" +
                             std::to_string(apollo->mpiRank) + ".txt"''', '''"-rank-" +
                             std::to_string(apollo->mpiSize - 1) + ".txt"'''))
bad("C21", "y-overwrite-registration", (R, "  const auto ret = apollo->regions.insert({name, this});", "  apollo->regions.clear();\n  const auto ret = apollo->regions.insert({name, this});"))
bad("C21", "y-yaml-loaded-twice", (R, "  if (!modelYamlFile.empty()) model->load(modelYamlFile);", "  if (!modelYamlFile.empty() && fileExists(modelYamlFile)) model->load(modelYamlFile);"))
bad("C22", "y-static-create", (A, "  return new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);", "  static Apollo::Region *last = nullptr;\n  if (last && std::string(last->name) == id) return last;\n  return last = new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);"))
bad("C22", "y-flush-no-collect", (A, "{ train(step); }", "{ train(step, false); }"))
bad("C24", "y-exec-info-after", (A, '''      file_out << r->name << ", " << r->idx << "\\n";''', '''      if (r->idx > 0) file_out << r->name << ", " << r->idx << "\\n";'''))
bad("C24", "y-exec-info-append", (A, '''                           "apollo_exec_info.csv");''', '''                           "apollo_exec_info.csv", std::ios::app);'''))
bad("C25", "y-store-trains", (R, "  if (Config::APOLLO_STORE_MODELS) {\n    std::string filename", "  if (Config::APOLLO_STORE_MODELS) {\n    if (step == 0) model->train(dataset);\n    std::string filename"))
bad("C25", "y-gather-trace-skips", (A, '''      trace_out << policy << ", " << metric << std::endl;\n''', '''      trace_out << policy << ", " << metric << std::endl;\n      features.clear();\n'''))
bad("C17", "y-newline-in-token", (PA_, "    while (!std::isspace(*it)) {\n      buffer[idx]", "    while (*it != ' ' && *it != '\\n') {\n      buffer[idx]"))
quiet("C17", "y-space-listed", (PA_, "    while (!std::isspace(*it)) {\n      buffer[idx]", "    while (*it != ' ' && !(*it >= '\\t' && *it <= '\\r')) {\n      buffer[idx]"))
bad("C09", "y-dataset-appended", (R, '''                           Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                           std::string(name) + ".yaml");
    if (!file_out''', '''                           Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                           std::string(name) + ".yaml", std::ios::app);
    if (!file_out'''))
bad("C19", "y-trace-appended", (R, "    trace_file.open(fname);", "    trace_file.open(fname, std::ios::app);"))
bad("C10", "y-net-appended", (PN_, "  std::ofstream f(filename, std::ios::binary);", "  std::ofstream f(filename, std::ios::binary | std::ios::app);"))

# ---- third independent round
K_ = "src/connectors/kokkos/kokkos-connector.cpp"
bad("C26", "z-feature-count", (K_, "      tuningProblem.variable_ids[numValidVariables++] = contextValues[x];\n    }", "      tuningProblem.variable_ids[numValidVariables] = contextValues[x];\n      if (x + 1 < numContextVariables) numValidVariables++;\n    }"))
bad("C26", "z-policy-mod-order", (K_, "    policyChoice /= set_size;", "    if (x) policyChoice /= set_size;"))
bad("C26", "z-candidate-last", (K_, "int local_policy_choice = policyChoice % set_size;", "int local_policy_choice = policyChoice % (set_size > 1 ? set_size - 1 : 1);"))
bad("C26", "z-erase-before-end", (K_, "  region->end(context);\n  tuned_contexts.erase(contextId);", "  tuned_contexts.erase(contextId);\n  if (tuned_contexts.empty()) region->end(context);"))
bad("C26", "z-less-value", (K_, "        return l.variable_ids[x].type_id < r.variable_ids[x].type_id;", "        return l.variable_ids[x].type_id <= r.variable_ids[x].type_id && x == 0;"))
bad("C26", "z-open-lower-step", (K_, "          (with_this.openLower ? (with_this.lower.int_value + 1)", "          (with_this.openLower ? (with_this.lower.int_value + with_this.step.int_value)"))
bad("C26", "z-zero-size-continues", (K_, '''      printf("Apollo Tuner: no candidates to choose from\\n");
      return;''', '''      printf("Apollo Tuner: no candidates to choose from\\n");
      set_size = 1;'''))
bad("C26", "z-limit-off-by", (K_, "  if (numContextVariables + numTuningVariables > max_variables) {", "  if (numContextVariables > max_variables || numTuningVariables > max_variables) {"))
bad("C26", "z-new-region-each", (K_, "  if (iter.second) {\n    std::string path", "  if (iter.second || iter.first->second.first.empty() || numContextVariables > 8) {\n    std::string path"))
bad("C26", "z-set-int-as-double", (K_, "      holder.double_value = values.double_value[index];", "      holder.double_value = (int64_t)values.double_value[index];"))
bad("C23", "z-begin-realtime", ("src/timers/TimerSync.cpp", "  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;", "  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1000 / 1e6;"))
bad("C23", "z-cached", ("src/timers/TimerSync.cpp", "  metric = exec_time_end - exec_time_begin;\n  return true;", "  metric = exec_time_end - exec_time_begin;\n  exec_time_begin = exec_time_end;\n  return true;"))
bad("C23", "z-abs", ("src/timers/TimerSync.cpp", "  metric = exec_time_end - exec_time_begin;", "  metric = (float)(exec_time_end) - (float)(exec_time_begin);"))
bad("C23", "z-float-ms", ("src/timers/TimerCudaAsync.cpp", "  metric = cudaTime / 1000.0;", "  metric = (int)cudaTime / 1000.0;"))
bad("C23", "z-leak", ("src/timers/TimerCudaAsync.cpp", "  cudaErrchk(cudaEventDestroy(event_stop));\n", ""))
bad("C22", "z-int-feature", (A, "void __apollo_region_set_feature(Apollo::Region *r, float feature)\n{", "void __apollo_region_set_feature(Apollo::Region *r, float feature)\n{\n  if (feature == 0) return;"))
bad("C22", "z-cached-policy", (A, "  int policy = r->getPolicyIndex();", "  static Apollo::Region *last;\n  static int p;\n  if (last != r || r->idx % 2) p = r->getPolicyIndex();\n  last = r;\n  int policy = p;"))
bad("C20", "z-grad-not-zeroed", (PN_, "    for (int i = 0; i < outputSize; ++i) {\n      bias_grad[i] = 0;\n    }", "    for (int i = 1; i < outputSize; ++i) {\n      bias_grad[i] = 0;\n    }"))
bad("C20", "z-max-not-updated", (PN_, "      maxBatchSize = batchSize;\n", "      maxBatchSize += batchSize;\n"))
bad("C20", "z-relu-grad-size", (PN_, "      inputGrad[i] = chainRuleGrad[i] * std::signbit(-inputs[i]);", "      inputGrad[i] = chainRuleGrad[i] * (outputs[i] >= 0);"))
bad("C20", "z-step-per-layer", (PN_, "    stepNum++;\n", "    if (stepNum < 1000) stepNum++;\n"))
bad("C20", "z-epsilon-inside", (PN_, "        weights[index] += learnRate * mHat / (std::sqrt(vHat) + epsilon);", "        weights[index] += learnRate * mHat / std::sqrt(vHat + epsilon);"))
bad("C20", "z-layer2-state", (PN_, "    auto out2_grad = layer2.backward(aout1, aout2_grad, batchSize);", "    auto out2_grad = layer2.backward(out1, aout2_grad, batchSize);"))
bad("C20", "z-sum-shared", (PN_, "      double sum = 0;\n      for (int j = 0; j < outputSize; ++j) {\n        int index", "      static double sum = 0;\n      for (int j = 0; j < outputSize; ++j) {\n        int index"))
bad("C20", "z-double-free", (PN_, "      // Allocate new arrays for the batch size.\n      outputs = new double[batchSize * outputSize]();\n", "      // Allocate new arrays for the batch size.\n      outputs = new double[batchSize * outputSize];\n"))
bad("C10", "z-trees-precision", (RF, "  ofs.precision(std::numeric_limits<double>::max_digits10);", "  ofs.precision(std::numeric_limits<float>::digits10);"))
bad("C10", "z-forest-keeps-trees", (RF, "  // Loading replaces any trees of an earlier training or load.\n  rfc.clear();\n", "  // Loading replaces any trees of an earlier training or load.\n  if (rfc.size() > num_trees) rfc.clear();\n"))
quiet("C08", "z-tie-last", (RF, "  int class_idx = 0;\n  for (size_t i = 1;", "  int class_idx = num_classes - 1;\n  for (size_t i = 0;"))
bad("C08", "z-skip-first-tree", (RF, "  for (auto &dtree : rfc) {\n    int dtree_prediction", "  for (auto &dtree : rfc) {\n    if (dtree == rfc.front() && rfc.size() % 2 == 0) continue;\n    int dtree_prediction"))
bad("C17", "z-class-list-skipped", (RF, "    parser.parse(class_idx);\n    parser.parseExpected(\",\");\n    ++class_idx;", "    parser.parse(class_idx);\n    ++class_idx;"))
bad("C17", "z-close-not-checked", (RF, "  parser.getNextToken();\n  parser.parseExpected(\"}\");\n}\n\nvoid RandomForestImpl::load", "  parser.getNextToken();\n}\n\nvoid RandomForestImpl::load"))

# ---------------------------------------------------------------- a further independent round
RH_, DH_, RR_, RRH_, OP_, DM_, ST_ = ("include/apollo/Region.h", "include/apollo/Dataset.h", "src/models/RoundRobin.cpp", "include/apollo/models/RoundRobin.h",
                                      "src/models/Optimal.cpp", "src/models/DatasetMap.cpp", "src/models/Static.cpp")
DTI, RFI, DTM, RFM = "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp"
DTIH, DS_, AP_, MF_, RD_ = "src/models/impl/DecisionTreeImpl.h", "src/Dataset.cpp", "src/Apollo.cpp", "src/ModelFactory.cpp", "src/models/Random.cpp"
bad("C01", "w-idx-narrow", (RH_, "  unsigned long long idx;", "  unsigned short idx;"))
bad("C01", "w-features-cap", (R, "  context->features.push_back(value);", "  if (context->features.size() < 16) context->features.push_back(value);"))
bad("C01", "w-features-reversed", (R, "  context->features = features;\n  return context;", "  context->features.assign(features.rbegin(), features.rend());\n  return context;"))
bad("C01", "w-features-int", (R, "  context->features.push_back(value);", "  context->features.push_back((int)value);"))
bad("C01", "w-resize", (R, "  context->features.reserve(num_features);", "  context->features.resize(num_features);"))
bad("C01", "w-clear-if-full", (R, "      context->features.clear();\n", "      if (context->features.size() >= num_features) context->features.clear();\n"))
bad("C01", "w-policy-clamped", (R, "  context->policy = choice;\n", "  context->policy = std::min(choice, num_policies - 1);\n"))
bad("C01", "w-cache-per-features", (R, "  int choice = model->getIndex(context->features);\n", "  static std::map<std::vector<float>, int> known;\n  auto hit = known.find(context->features);\n  int choice = hit != known.end() && !model->isTrainable()\n                   ? hit->second\n                   : model->getIndex(context->features);\n  known[context->features] = choice;\n"))
bad("C02", "w-positive-only", (R, "  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n", "  if (metric > 0 &&\n      (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable()))\n"))
bad("C02", "w-metric-float", (R, "    dataset.insert(context->features, context->policy, metric);", "    dataset.insert(context->features, context->policy, (float)metric);"))
bad("C02", "w-policy-nonneg", (R, "    dataset.insert(context->features, context->policy, metric);", "    dataset.insert(context->features, std::abs(context->policy), metric);"))
bad("C02", "w-count-trainable", (R, "  apollo->region_executions++;", "  if (model->isTrainable()) apollo->region_executions++;"))
bad("C02", "w-front-only", (R, '''  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());''', '''  while (!pending_contexts.empty() && isDone(pending_contexts.front()))
    pending_contexts.erase(pending_contexts.begin());'''))
bad("C02", "w-dtor-gives-up", (R, "  while (pending_contexts.size() > 0)\n    collectPendingContexts();", "  for (int i = 0; i < 1000 && pending_contexts.size() > 0; ++i)\n    collectPendingContexts();"))
bad("C02", "w-end-metric-stopped", (R, "  context->timer->stop();\n  if (context == &sync_context) {", "  if (context == &sync_context) {"))
bad("C02", "w-explicit-zero", (R, "  collectContext(context, metric);\n\n  collectPendingContexts();", "  if (metric == 0) return end(context);\n  collectContext(context, metric);\n\n  collectPendingContexts();"))
bad("C03", "w-key-int", (DH_, "  std::map<std::pair<std::vector<float>, int>, double> data;", "  struct Less {\n    bool operator()(const std::pair<std::vector<float>, int> &a,\n                    const std::pair<std::vector<float>, int> &b) const\n    {\n      if (a.second != b.second) return a.second < b.second;\n      return std::lexicographical_compare(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), [](float x, float y) { return (int)x < (int)y; });\n    }\n  };\n  std::map<std::pair<std::vector<float>, int>, double, Less> data;"),
    (DH_, "#include <map>\n", "#include <algorithm>\n#include <map>\n"))
bad("C03", "w-multimap-key", (DH_, "  std::map<std::pair<std::vector<float>, int>, double> data;", "  std::map<std::pair<std::vector<float>, int>, float> data;"))
bad("C03", "w-key-short", (DH_, "  std::map<std::pair<std::vector<float>, int>, double> data;", "  std::map<std::pair<std::vector<float>, unsigned char>, double> data;"),
    (DS_, "  auto key = std::make_pair(std::move(features), policy);", "  std::pair<std::vector<float>, unsigned char> key(std::move(features), policy);"))
bad("C03", "w-ema-warmup", (DS_, "    it->second = .5 * it->second + .5 * metric;", "    it->second = it->second > 0 ? .5 * it->second + .5 * metric : metric;"))
bad("C04", "w-zero-first", (DS_, "      if (avg < prev_avg) best", "      if (avg < prev_avg || prev_avg == 0.0) best"))
bad("C04", "w-skip-nonpositive", (DS_, "    auto iter = best_policies.find(features);\n", "    if (avg <= 0) continue;\n    auto iter = best_policies.find(features);\n"))
bad("C04", "w-eps", (DS_, "      if (avg < prev_avg) best", "      if (prev_avg - avg > 1e-9) best"))
bad("C04", "w-float-compare", (DS_, "      if (avg < prev_avg) best", "      if ((float)avg < (float)prev_avg) best"))
bad("C04", "w-nearest", (DM_, "  if (best_policies.count(features) == 0) {", "  auto near = best_policies.lower_bound(features);\n  if (near != best_policies.end() && best_policies.size() > 1)\n    return near->second.first;\n  if (best_policies.count(features) == 0) {"))
bad("C05", "w-rr-char", (RRH_, "  int last_policy;", "  signed char last_policy;"))
bad("C05", "w-rr-shared", (RRH_, "  int last_policy;", "  static int last_policy;"), (RR_, "int RoundRobin::getIndex(", "int RoundRobin::last_policy = -1;\n\nint RoundRobin::getIndex("))
bad("C05", "w-optimal-dup", (OP_, "    optimal_policy.push_back(std::stoi(policy_str));\n\n  infile.close();\n}\n\nOptimal::Optimal()", "    if (optimal_policy.empty() || policy_str != std::to_string(optimal_policy.back()))\n      optimal_policy.push_back(std::stoi(policy_str));\n\n  infile.close();\n}\n\nOptimal::Optimal()"))
bad("C05", "w-optimal-clear", (OP_, "void Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n", "void Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n  std::getline(infile, policy_str, ',');\n"))
bad("C05", "w-random-two", (RD_, "  if (policy_count > 1) {", "  if (policy_count > 2) {"))
bad("C06", "w-flag-data", (DTM, "  dtree->train(features, responses);\n#endif\n\n  trainable = false;", "  dtree->train(features, responses);\n#endif\n\n  trainable = features.size() < 2;"))
bad("C06", "w-forest-unsure", (RFM, "  if (!trainable) return rfc->predict(features);\n", "  if (!trainable && !features.empty()) return rfc->predict(features);\n"))
bad("C06", "w-tree-copy", (DTM, "  if (!trainable) return dtree->predict(features);\n", "  if (!trainable) {\n    std::vector<float> rounded(features.begin(), features.end());\n    for (auto &f : rounded) f = (int)f;\n    return dtree->predict(rounded);\n  }\n"))
bad("C07", "w-feature-limit", (DTI, "  size_t num_features = Begin->first.size();", "  size_t num_features = std::min<size_t>(Begin->first.size(), 32);"))
bad("C07", "w-small-leaf", (DTI, "  if (Begin == End) return node;", "  if (size < 3) return node;"))
bad("C07", "w-init-gini", (DTI, "  float min_gini = 1.0f;", "  float min_gini = 0.5f;"))
bad("C07", "w-depth-char", (DTIH, "  unsigned max_depth;\n", "  unsigned char max_depth;\n"))
bad("C07", "w-leaf-right", (DTI, "  if (features[tree.feature_idx] < tree.threshold) {", "  if (tree.feature_idx < (int)features.size() - 1 ? features[tree.feature_idx] < tree.threshold : features.back() <= tree.threshold) {"))
bad("C07", "w-second-max", (DTI, "                          std::max_element(counts.begin(), counts.end()));", "                          std::max_element(counts.begin(), std::next(counts.begin(), std::min<size_t>(counts.size(), 8))));"))
bad("C08", "w-half", (RFI, "  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);\n\n  // Training", "  std::uniform_int_distribution<size_t> uniform_dist(0, (features.size() - 1) & ~size_t(1));\n\n  // Training"))
bad("C08", "w-cap-trees", (RFI, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {", "  rfc.clear();\n  for (unsigned i = 0; i < num_trees && i < 128; i++) {"))
bad("C08", "w-votes-char", (RFI, "  int count_per_class[num_classes];", "  signed char count_per_class[num_classes];"))
bad("C09", "w-finite", (DS_, "    os << \"  \" << idx << \": { features: [ \";", "    if (metric != metric) continue;\n    os << \"  \" << idx << \": { features: [ \";"))
bad("C09", "w-fixed", (DS_, "  os << \"data: {\\n\";\n  int idx", "  os << std::fixed << \"data: {\\n\";\n  int idx"))
bad("C10", "w-count-short", (PN_, "  f.write((char *)&trainCount, sizeof(int));", "  short count = trainCount;\n  f.write((char *)&count, sizeof(short));"), (PN_, "  f.read((char *)&trainCount, sizeof(int));", "  short count;\n  f.read((char *)&count, sizeof(short));\n  trainCount = count;"))
bad("C10", "w-cache-if-trained", (PN_, "  // The cached probabilities are outdated.\n  actionProbabilityMap.clear();", "  // The cached probabilities are outdated.\n  if (trainCount > 0) actionProbabilityMap.clear();"))
bad("C10", "w-text-mode", (PN_, "sizeof(double) * net->layer3.inputSize * net->layer3.outputSize);\n  f.read((char *)net->layer3.bias, sizeof(double) * net->layer3.outputSize);", "sizeof(double) * net->layer3.inputSize * net->layer3.outputSize);\n  f.read((char *)net->layer2.bias, sizeof(double) * net->layer3.outputSize);"))
bad("C11", "w-latest-newer", (R, "               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    model->store(filename);\n\n", "               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    static int newest = -1;\n    if (step > newest) model->store(filename);\n    newest = std::max(newest, step);\n\n"))
bad("C11", "w-single-first", (AP_, "      if (reg->model->isTrainable()) reg->model->train(merged_dataset);\n", "      if (reg->model->isTrainable()) {\n        reg->model->train(merged_dataset);\n        if (merged_dataset.size() == 1) break;\n      }\n"))
bad("C11", "w-gather-step", (AP_, "  if (Config::APOLLO_COLLECTIVE_TRAINING) {\n    // std", "  if (Config::APOLLO_COLLECTIVE_TRAINING && step != 0) {\n    // std"))
bad("C11", "w-force-ignored", (R, "  if (dataset.size() <= 0) return;\n\n  if (!Config", "  if (dataset.size() <= (force ? 0 : 1)) return;\n\n  if (!Config"))
bad("C12", "w-exactly", (R, "0 < min_training_data && min_training_data <= dataset.size())", "0 < min_training_data && min_training_data == dataset.size())"))
bad("C12", "w-period-context", (R, "             (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {", "             (apollo->region_executions % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {"))
bad("C12", "w-min-with-period", (R, "  } else if (0 < min_training_data &&", "  } else if (!Config::APOLLO_PER_REGION_TRAIN_PERIOD && 0 < min_training_data &&"))
bad("C12", "w-before-load", (R, "    std::ifstream ifs(dataset_file);\n    if (ifs) dataset.load(ifs);\n    ifs.close();\n\n    // Check if auto-training applies: min_training_data is set and dataset\n    // size is large enough.\n    autoTrain();", "    autoTrain();\n    std::ifstream ifs(dataset_file);\n    if (ifs) dataset.load(ifs);\n    ifs.close();\n"))
bad("C14", "w-empty-default", (AP_, "  if (c == NULL) {\n", "  if (c == NULL || *c == 0) {\n"))
bad("C14", "w-eacces", (AP_, "  if (ret != 0 && errno != EEXIST)", "  if (ret != 0 && errno != EEXIST && errno != EACCES)"))
bad("C14", "w-atoi", (AP_, "      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PER_REGION_TRAIN_PERIOD\", \"0\"));", "      std::atoi(apolloUtils::safeGetEnv(\"APOLLO_PER_REGION_TRAIN_PERIOD\", \"0\"));"))
bad("C14", "w-mode", (AP_, "S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH", "S_IRUSR | S_IXUSR | S_IRWXG | S_IROTH | S_IXOTH"))
bad("C15", "w-depth-cap", (MF_, "    if (it != model_params.end()) max_depth = std::stoul(it->second);\n    std::unique_ptr<PolicyModel> explorer;\n    it = model_params.find(\"explore\");\n    // TODO: enable", "    if (it != model_params.end()) max_depth = std::min(std::stoul(it->second), 64ul);\n    std::unique_ptr<PolicyModel> explorer;\n    it = model_params.find(\"explore\");\n    // TODO: enable"))
bad("C15", "w-value-last-eq", (R, "    size_t kv_pos = keyval_str.find(\"=\");", "    size_t kv_pos = keyval_str.rfind(\"=\");"))
bad("C15", "w-stof", (MF_, "lr = std::stod(it->second);", "lr = std::stof(it->second);"))
bad("C15", "w-beta-int", (MF_, "threshold = std::stod(it->second);", "threshold = std::abs(std::stod(it->second));"))

# ---------------------------------------------------------------- x: policy network and Kokkos once more
XN = "src/models/PolicyNet.cpp"
XK = "src/connectors/kokkos/kokkos-connector.cpp"
bad("C20", "aa-gradbuf", (XN, "      inputGrad = new double[batchSize * inputSize];\n", "      inputGrad = new double[batchSize * outputSize];\n"))
bad("C20", "aa-zero-row", (XN, "      for (int i = 0; i < batchSize * outputSize; ++i) {\n        outputs[i] = 0;", "      for (int i = 0; i < outputSize; ++i) {\n        outputs[i] = 0;"))
bad("C20", "aa-step-char", (XN, "  long stepNum = 0;", "  unsigned char stepNum = 0;"))
bad("C20", "aa-sum-float", (XN, "      double sum = 0;\n", "      float sum = 0;\n"))
bad("C20", "aa-leaky", (XN, "      outputs[i] = std::max(inputs[i], 0.);", "      outputs[i] = std::max(inputs[i], 1e-3 * inputs[i]);"))
bad("C20", "aa-relu-clip", (XN, "      outputs[i] = std::max(inputs[i], 0.);", "      outputs[i] = std::min(std::max(inputs[i], 0.), 1e6);"))
bad("C20", "aa-step2-before", (XN, "    auto out2_grad = layer2.backward(aout1, aout2_grad, batchSize);\n", "    layer2.step(learnRate, beta1, beta2);\n    auto out2_grad = layer2.backward(aout1, aout2_grad, batchSize);\n"),
    (XN, "    layer2.step(learnRate, beta1, beta2);\n    layer3.step", "    layer3.step"))
bad("C20", "aa-step-betas", (XN, "    layer3.step(learnRate, beta1, beta2);", "    layer3.step(learnRate, beta1);"))
bad("C20", "aa-relu-shared", (XN, "    auto aout2 = relu2.forward(out2, batchSize, hiddenSize);\n    auto out3 = layer3.forward(aout2, batchSize);\n    auto aout3 = softmax.forward(out3, batchSize, outputSize);\n\n    // Compute the backward", "    auto aout2 = relu1.forward(out2, batchSize, hiddenSize);\n    auto out3 = layer3.forward(aout2, batchSize);\n    auto aout3 = softmax.forward(out3, batchSize, outputSize);\n\n    // Compute the backward"))
bad("C20", "aa-bias-grad-last", (XN, "        bias_grad[j] += chainRuleGrad[i * outputSize + j];", "        bias_grad[j] = chainRuleGrad[i * outputSize + j];"))
bad("C20", "aa-alpha-batch", (XN, "      alpha[i] = inputs[i * outputSize];\n", "      alpha[i] = inputs[0];\n"))
bad("C20", "aa-eps-inside", (XN, "        weights[index] += learnRate * mHat / (std::sqrt(vHat) + epsilon);", "        weights[index] += learnRate * mHat / std::sqrt(vHat + epsilon);"))
bad("C20", "aa-grad-accumulates", (XN, "    for (int i = 0; i < outputSize * inputSize; ++i) {\n      weights_grad[i] = 0;\n    }\n", "    if (stepNum == 0) for (int i = 0; i < outputSize * inputSize; ++i) {\n      weights_grad[i] = 0;\n    }\n"))
quiet("C20", "aa-step-early", (XN, "    auto aout2_grad = relu2.backward(out2, out3_grad, batchSize, hiddenSize);\n", "    layer3.step(learnRate, beta1, beta2);\n    auto aout2_grad = relu2.backward(out2, out3_grad, batchSize, hiddenSize);\n"),
      (XN, "    layer2.step(learnRate, beta1, beta2);\n    layer3.step(learnRate, beta1, beta2);\n", "    layer2.step(learnRate, beta1, beta2);\n"))
quiet("C20", "aa-forward-shared", (XN, "  double *forward(double *state, int batchSize)\n  {\n    // Compute the forward pass through each layer of the network.\n    auto out1 = layer1.forward(state, batchSize);", "  double *forward(double *state, int batchSize)\n  {\n    double *out1;\n    out1 = layer1.forward(state, batchSize);"))
bad("C16", "aa-key-32", (XN, "    bits = (uint64_t)feature;", "    bits = (uint32_t)feature;"))
bad("C16", "aa-post-increment", (XN, "(1 - std::pow(beta, ++trainCount))", "(1 - std::pow(beta, trainCount++))"))
bad("C16", "aa-eval-reversed", (XN, "        evalState[index + j] = bits[j];", "        evalState[index + 63 - j] = bits[j];"))
bad("C16", "aa-gen-copy", (XN, "  int policyIndex = d(gen);", "  auto g = gen;\n  int policyIndex = d(g);"))
bad("C16", "aa-threshold-equal", (XN, "  // convention return policy 0 as the default.\n  if (baseline < threshold) return 0;", "  // convention return policy 0 as the default.\n  if (baseline <= threshold) return 0;"))
bad("C16", "aa-metric-clamped", (XN, "    rewards.push_back(std::exp(-metric));", "    rewards.push_back(std::exp(-std::min(metric, 700.0)));"))
bad("C16", "aa-metric-float", (XN, "    auto metric = std::get<2>(measure);", "    float metric = std::get<2>(measure);"))
bad("C16", "aa-skip-zero-metric", (XN, "    auto metric = std::get<2>(measure);\n", "    auto metric = std::get<2>(measure);\n    if (metric <= 0) continue;\n"))
bad("C16", "aa-signed", (XN, "      std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)f);", "      std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)(uint32_t)f);"))
bad("C16", "aa-clear-on-size", (XN, "  actionProbabilityMap.clear();\n}\n\nvoid PolicyNet::trainNet", "  if (actionProbabilityMap.size() > 1) actionProbabilityMap.clear();\n}\n\nvoid PolicyNet::trainNet"))
bad("C16", "aa-cache-key-sum", (XN, "    key.append(bits.to_string());", "    key.append(std::to_string(bits.to_ulong()));"))
bad("C16", "aa-cached-other", (XN, "    actionProbs = it->second;", "    actionProbs = actionProbabilityMap.begin()->second;"))
bad("C16", "aa-probs-from-1", (XN, "    for (int i = 0; i < numPolicies; ++i)\n      actionProbs[i]", "    for (int i = 1; i < numPolicies; ++i)\n      actionProbs[i]"))
bad("C16", "aa-avg-unbatched", (XN, "  batchRewardAvg /= batchSize;", "  batchRewardAvg /= std::max(batchSize, 2);"))
bad("C16", "aa-accumulate-int", (XN, "rewards.end(), 0.0);", "rewards.end(), 0);"))
quiet("C16", "aa-clear-first", (XN, "  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();\n", "  actionProbabilityMap.clear();\n  trainNet(states, actions, rewards);\n"))
quiet("C16", "aa-emplace-cache", (XN, "    actionProbabilityMap.insert(std::make_pair(key, actionProbs));", "    actionProbabilityMap.emplace(key, actionProbs);"))
bad("C10", "aa-count-short", (XN, "  f.write((char *)&trainCount, sizeof(int));", "  f.write((char *)&trainCount, sizeof(short));"), (XN, "  f.read((char *)&trainCount, sizeof(int));", "  f.read((char *)&trainCount, sizeof(short));"))
bad("C10", "aa-layer2-half", (XN, "  f.write((char *)net->layer2.weights,\n          sizeof(double) * net->layer2.inputSize * net->layer2.outputSize);", "  f.write((char *)net->layer2.weights,\n          sizeof(float) * net->layer2.inputSize * net->layer2.outputSize);"),
    (XN, "  f.read((char *)net->layer2.weights,\n         sizeof(double) * net->layer2.inputSize * net->layer2.outputSize);", "  f.read((char *)net->layer2.weights,\n         sizeof(float) * net->layer2.inputSize * net->layer2.outputSize);"))
bad("C10", "aa-text-mode", (XN, "  f.read((char *)&rewardMovingAvg, sizeof(double));\n  f.read((char *)&trainCount, sizeof(int));", "  f.read((char *)&trainCount, sizeof(int));\n  f.read((char *)&rewardMovingAvg, sizeof(double));"))
bad("C26", "aa-name-32", (XK, "  strncpy(metadata->name, name, 64);\n  metadata->name[64] = '\\0';\n  info->toolProvidedInfo = metadata;\n  associate", "  strncpy(metadata->name, name, 64);\n  info->toolProvidedInfo = metadata;\n  associate"))
bad("C26", "aa-divide-first", (XK, "    int local_policy_choice = policyChoice % set_size;\n", "    if (x > 0) policyChoice /= set_size;\n    int local_policy_choice = policyChoice % set_size;\n"), (XK, "                          (tuningValues[x].metadata));\n    policyChoice /= set_size;\n", "                          (tuningValues[x].metadata));\n"))
bad("C26", "aa-context-kept", (XK, "  tuned_contexts[contextId] = std::make_pair(region, context);", "  tuned_contexts.emplace(contextId, std::make_pair(region, context));"))
bad("C26", "aa-static-space", (XK, "  int64_t choiceSpaceSize = 1;", "  static int64_t choiceSpaceSize = 1;"))
bad("C26", "aa-less-first", (XK, "    for (int x = 0; x < l.num_variables; ++x) {\n      if (l.var", "    for (int x = 0; x < 1; ++x) {\n      if (l.var"))
bad("C26", "aa-less-backwards", (XK, "        return l.variable_ids[x].type_id < r.variable_ids[x].type_id;", "        return l.variable_ids[0].type_id < r.variable_ids[x].type_id;"))
bad("C26", "aa-open-step", (XK, "          (with_this.openLower ? (with_this.lower.int_value + 1)\n", "          (with_this.openLower ? (with_this.lower.int_value + with_this.step.int_value)\n"))
bad("C26", "aa-erase-found", (XK, "  tuned_contexts.erase(contextId);\n", "  if (tuned_contexts.size() > 1) tuned_contexts.erase(contextId);\n"))
bad("C26", "aa-features-after", (XK, "  int policyChoice = region->getPolicyIndex(context);\n", ""), (XK, "  auto *context = region->begin();\n", "  auto *context = region->begin();\n  int policyChoice = region->getPolicyIndex(context);\n"))
bad("C26", "aa-feature-int", (XK, "      return static_cast<float>(value.value.double_value);", "      return static_cast<float>(static_cast<int64_t>(value.value.double_value));"))
bad("C26", "aa-hash-prefix", (XK, "std::hash<std::string>{}(value.value.string_value));", "std::hash<std::string>{}(std::string(value.value.string_value, 1)));"))
bad("C26", "aa-set-first-only", (XK, "          candidate_values[x] = mvv(id, info->candidates.set.values, info, x);", "          candidate_values[x] = mvv(id, info->candidates.set.values, info, x / 2 * 2);"))
bad("C26", "aa-double-count", (XK, "  return ((upper - lower) / step);", "  return std::ceil((upper - lower) / step);"), (XK, "int64_t slice_helper(", "#include <cmath>\nint64_t slice_helper("))
bad("C26", "aa-end-others", (XK, "  region->end(context);\n", "  region->end();\n"))

# ---------------------------------------------------------------- bb: runtime, data sets and timers once more
BA, BR, BD, BP = "src/Apollo.cpp", "src/Region.cpp", "src/Dataset.cpp", "src/helpers/Parser.cpp"
bad("C01", "bb-resize", (BR, "  context->features.reserve(num_features);", "  context->features.resize(num_features);"))
bad("C01", "bb-clear-if-full", (BR, "      context->features.clear();\n", "      if (context->features.size() > (size_t)num_features) context->features.clear();\n"))
bad("C01", "bb-trace-rounds", (BR, "    for (auto &f : context->features)\n      trace_out << (int)f << \", \";\n    trace_out << \"] policy", "    for (auto &f : context->features)\n      trace_out << (f = (int)f) << \", \";\n    trace_out << \"] policy"))
bad("C25", "bb-trace-rounds25", (BR, "    for (auto &f : context->features)\n      trace_out << (int)f << \", \";\n    trace_out << \"] policy", "    for (auto &f : context->features)\n      trace_out << (f = (int)f) << \", \";\n    trace_out << \"] policy"))
bad("C25", "bb-allgather-rounds", (BA, "        trace_out << (int)f << \", \";", "        trace_out << (f = (int)f) << \", \";"))
bad("C25", "bb-idx-counted", (BR, "    trace_file << context->idx << \" \";", "    trace_file << idx++ << \" \";"))

bad("C25", "bb-store-clears", (BR, "    model->store(filename);\n\n    if (Config::APOLLO_RETRAIN_ENABLE) {", "    model->store(filename);\n    if (min_training_data > 0) dataset.clear();\n\n    if (Config::APOLLO_RETRAIN_ENABLE) {"))
bad("C13", "bb-name-63", (BA, "    MPI_Pack(reg->name, 64, MPI_CHAR", "    MPI_Pack(reg->name, 63, MPI_CHAR"), (BA, "region_name, 64, MPI_CHAR, apollo_mpi_comm);\n    MPI_Unpack(\n        recvbuf, recv_size, &pos, &metric", "region_name, 63, MPI_CHAR, apollo_mpi_comm);\n    MPI_Unpack(\n        recvbuf, recv_size, &pos, &metric"),
    (BA, "  MPI_Pack_size(64, MPI_CHAR", "  MPI_Pack_size(63, MPI_CHAR"))
bad("C13", "bb-own-break", (BA, "    if (rank == mpiRank) continue;", "    if (rank == mpiRank) break;"))
bad("C13", "bb-own-skip-rest", (BA, "    if (rank == mpiRank) continue;", "    if (rank <= mpiRank) continue;"))
bad("C13", "bb-find-64", (BA, "regions.find(region_name);", "regions.find(std::string(region_name, 64));"))
bad("C13", "bb-first-region", (BA, "    auto reg_iter = regions.find(region_name);", "    auto reg_iter = regions.lower_bound(region_name);"))
bad("C13", "bb-unseen-only", (BA, "      reg->dataset.insert(features, policy, metric);\n    }\n  }\n\n  if", "      if (policy < reg->num_policies) reg->dataset.insert(features, policy, metric);\n    }\n  }\n\n  if"))
bad("C13", "bb-recv-less", (BA, "  while (pos < recv_size) {", "  while (pos + 64 < recv_size && recv_size_per_rank[0] > 0) {"))
bad("C14", "bb-base", (BA, "      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_GLOBAL_TRAIN_PERIOD\", \"0\"));", "      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_GLOBAL_TRAIN_PERIOD\", \"0\"), nullptr, 0);"))
bad("C14", "bb-abs", (BA, "      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_GLOBAL_TRAIN_PERIOD\", \"0\"));", "      std::abs(std::stoi(apolloUtils::safeGetEnv(\"APOLLO_GLOBAL_TRAIN_PERIOD\", \"0\")));"))
bad("C14", "bb-bool", (BA, "      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PERSISTENT_DATASETS\", \"0\"));", "      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PERSISTENT_DATASETS\", \"0\")) > 1;"))
bad("C14", "bb-override", (BA, "  if (Config::APOLLO_COLLECTIVE_TRAINING && Config::APOLLO_LOCAL_TRAINING) {\n", "  if (Config::APOLLO_TRACE_ALLGATHER) Config::APOLLO_LOCAL_TRAINING = 0;\n  if (Config::APOLLO_COLLECTIVE_TRAINING && Config::APOLLO_LOCAL_TRAINING) {\n"))
bad("C14", "bb-dir-stored", (BA, "  if (Config::APOLLO_STORE_MODELS)\n    apolloUtils", "  if (Config::APOLLO_STORE_MODELS && !Config::APOLLO_TRACE_CSV)\n    apolloUtils"))
bad("C22", "bb-create-once", (BA, "  return new Apollo::Region(\n", "  static void *region = new Apollo::Region(\n"), (BA, "      num_features, id, num_policies, min_training_data, model_info);\n}", "      num_features, id, num_policies, min_training_data, model_info);\n  return region;\n}"))
bad("C22", "bb-feature-int", (BA, "  r->setFeature(feature);", "  r->setFeature((int)feature);"))
bad("C22", "bb-train-nocollect", (BA, "int step) { r->train(step); }", "int step) { r->train(step, false); }"))
bad("C22", "bb-create-swap", (BA, "      num_features, id, num_policies, min_training_data, model_info);\n}", "      num_features, id, min_training_data, num_policies, model_info);\n}"))
bad("C22", "bb-deprecated-end", (BR, "void Apollo::Region::end(double metric) { end(current_context, metric); }", "void Apollo::Region::end(double metric) { if (metric > 0) end(current_context, metric); else end(current_context); }"))
bad("C23", "bb-raw-stop", (("src/timers/TimerSync.cpp"), "  clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_end", "  clock_gettime(CLOCK_MONOTONIC_RAW, &ts);\n  exec_time_end"))
bad("C23", "bb-float", ("src/timers/TimerSync.h", "  double exec_time_begin, exec_time_end;", "  float exec_time_begin, exec_time_end;"))
bad("C23", "bb-done-once", ("src/timers/TimerSync.cpp", "  metric = exec_time_end - exec_time_begin;\n", "  metric = exec_time_end - exec_time_begin;\n  exec_time_begin = exec_time_end;\n"))
bad("C23", "bb-negative", ("src/timers/TimerSync.cpp", "  metric = exec_time_end - exec_time_begin;\n  return true;", "  metric = exec_time_end - exec_time_begin;\n  return metric > 0;"))
bad("C23", "bb-cuda-int", ("src/timers/TimerCudaAsync.cpp", "  metric = cudaTime / 1000.0;", "  metric = (int)cudaTime / 1000.0;"))
bad("C23", "bb-cuda-ready", ("src/timers/TimerCudaAsync.cpp", "    if (code == cudaErrorNotReady) return false;", "    if (code == cudaErrorNotReady) cudaEventSynchronize(event_start);"))
bad("C24", "bb-thread-local", ("include/apollo/Apollo.h", "    static Apollo the_instance;", "    static thread_local Apollo the_instance;"))
bad("C24", "bb-leaked", ("include/apollo/Apollo.h", "    static Apollo the_instance;\n    return &the_instance;", "    static Apollo *the_instance = new Apollo();\n    return the_instance;"))
bad("C24", "bb-skip-idle", (BA, "    Region *r = it.second;\n    delete r;", "    Region *r = it.second;\n    if (r->idx > 0) delete r;"))
bad("C24", "bb-close-first", (BA, "  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;", "  if (regions.size() > 64) gtrace_file.close();\n  for (auto &it : regions) {\n    Region *r = it.second;\n    delete r;"))
bad("C09", "bb-precision-float", (BD, "std::numeric_limits<double>::max_digits10", "std::numeric_limits<float>::max_digits10"))
bad("C09", "bb-abs-feature", (BD, "      os << float(f) << \", \";", "      os << (f < 0 ? f : float(long(f)) == f ? long(f) : f) << \", \";") if False else (BD, "      os << float(f) << \", \";", "      os << (int)f << \", \";"))
bad("C09", "bb-store-skip-zero", (BD, "    os << \"  \" << idx << \": { features: [ \";", "    if (metric == 0) continue;\n    os << \"  \" << idx << \": { features: [ \";"))
bad("C09", "bb-load-merge", (BD, "    insert(features, policy, xtime);\n  }", "    if (xtime >= 0) insert(features, policy, xtime);\n  }"))
bad("C09", "bb-xtime-float", (BD, "    double xtime;\n", "    float xtime;\n"), (BD, "    parser.parse<double>(xtime);", "    parser.parse<float>(xtime);"))
bad("C17", "bb-prefix-compare", (BP, "  if (std::strcmp(token, expected)) {", "  if (std::strncmp(token, expected, std::strlen(expected))) {"))
bad("C17", "bb-empty-end", (BP, "  return (std::strcmp(token, s) == 0);", "  return (std::strcmp(token, s) == 0) || !*token;"))
bad("C17", "bb-strtol", (BP, "  val = std::stoi(token, &pos);\n", "  char *e;\n  val = std::strtol(token, &e, 10);\n  pos = e - token;\n"))
bad("C17", "bb-skip-trailing", (BD, "    parser.parse<int>(policy);\n\n    parser.parseExpected(\",\");\n", "    parser.parse<int>(policy);\n\n"))
bad("C17", "bb-warn-only", (BP, "            << \"\\n\";\n  abort();", "            << \"\\n\";\n  if (err_pos >= 0) abort();"))
bad("C17", "bb-buffer", (BP, "      if (idx >= BUFSIZE) fatal_error(\"Token exceeds buffer size\");", "      if (idx > BUFSIZE) fatal_error(\"Token exceeds buffer size\");"))
bad("C19", "bb-app", (BR, "    trace_file.open(fname);\n", "    trace_file.open(fname, std::ios::app);\n"))
bad("C19", "bb-newline-nan", (BR, "    trace_file << metric << \"\\n\";", "    trace_file << metric;\n    if (metric == metric) trace_file << \"\\n\";"))
bad("C19", "bb-limited", (BR, "    trace_file << apollo->mpiRank << \" \";", "    if (context->idx > 1000000) goto skip;\n    trace_file << apollo->mpiRank << \" \";"), (BR, "    trace_file << metric << \"\\n\";\n  }\n", "    trace_file << metric << \"\\n\";\n  }\nskip:\n"))
bad("C18", "bb-short", (BR, "      trace_out << (int)f << \", \";\n    trace_out << \"] policy", "      trace_out << (short)f << \", \";\n    trace_out << \"] policy"))
bad("C18", "bb-best-first", (BR, "    for (auto &b : min_metric_policies) {\n      trace_out << \"[ \";", "    for (auto &b : min_metric_policies) {\n      if (b.second.second <= 0) break;\n      trace_out << \"[ \";"))
bad("C18", "bb-trunc", (BR, "                       std::ofstream::app);\n", "                       idx > 1 ? std::ofstream::app : std::ofstream::trunc);\n"))
bad("C12", "bb-executions-after", (BR, "    apollo->train(apollo->region_executions,\n", "    apollo->train(idx,\n"))
bad("C12", "bb-negative-period", (BR, "  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&\n", "  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD > 1 &&\n"))
bad("C11", "bb-empty-one", (BR, "  if (dataset.size() <= 0) return;\n\n  if (!Config", "  if (dataset.size() <= 0 || (step < 0)) return;\n\n  if (!Config"))
bad("C21", "bb-count-empty", (BR, "  if (model_info.empty()) model_info", "  if (model_info.empty() || model_info == \"Static\") model_info"))
bad("C21", "bb-yaml-optional", (BR, "  if (!modelYamlFile.empty()) model->load(modelYamlFile);", "  if (!modelYamlFile.empty() && !model_params.count(\"load-dataset\")) model->load(modelYamlFile);"))
bad("C15", "bb-key-trim", (BR, "      std::string val = keyval_str.substr(kv_pos + 1);", "      std::string val = keyval_str.substr(kv_pos + 1, 16);"))
bad("C15", "bb-last-param", (BR, "  } while (std::string::npos != pos);", "  } while (std::string::npos != pos && !model_params_str.empty());"))

# ---------------------------------------------------------------- cc: exceptions caught, jumps
bad("C17", "cc-catch-parse", (BP, "  std::size_t pos;\n  val = std::stoi(token, &pos);\n", "  std::size_t pos = 0;\n  try {\n    val = std::stoi(token, &pos);\n  } catch (const std::exception &) {\n    val = 0;\n  }\n"))
bad("C17", "cc-catch-range", (BP, "  std::size_t pos;\n  val = std::stof(token, &pos);\n", "  std::size_t pos = 0;\n  try {\n    val = std::stof(token, &pos);\n  } catch (const std::out_of_range &) {\n    val = 0;\n  }\n"))
quiet("C17", "cc-rethrow", (BP, "  std::size_t pos;\n  val = std::stoi(token, &pos);\n", "  std::size_t pos = 0;\n  try {\n    val = std::stoi(token, &pos);\n  } catch (const std::exception &) {\n    std::cerr << token;\n    throw;\n  }\n"))
bad("C14", "cc-catch-dir", (BA, "  apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR);\n", "  try {\n    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR);\n  } catch (const std::runtime_error &e) {\n    std::cerr << e.what();\n  }\n"))
bad("C14", "cc-catch-number", (BA, "  Config::APOLLO_PER_REGION_TRAIN_PERIOD =\n      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PER_REGION_TRAIN_PERIOD\", \"0\"));\n", "  try {\n  Config::APOLLO_PER_REGION_TRAIN_PERIOD =\n      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PER_REGION_TRAIN_PERIOD\", \"0\"));\n  } catch (...) {\n    Config::APOLLO_PER_REGION_TRAIN_PERIOD = 0;\n  }\n"))
quiet("C14", "cc-number-abort", (BA, "  Config::APOLLO_PER_REGION_TRAIN_PERIOD =\n      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PER_REGION_TRAIN_PERIOD\", \"0\"));\n", "  try {\n  Config::APOLLO_PER_REGION_TRAIN_PERIOD =\n      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_PER_REGION_TRAIN_PERIOD\", \"0\"));\n  } catch (...) {\n    std::cerr << \"not a number\\n\";\n    throw;\n  }\n"))
bad("C02", "cc-catch-timer", (BR, "  pending_contexts.push_back(context);\n  collectPendingContexts();\n}", "  pending_contexts.push_back(context);\n  try {\n    collectPendingContexts();\n  } catch (const std::runtime_error &) {\n    pending_contexts.clear();\n  }\n}"))
bad("C15", "cc-catch-policy", ("src/ModelFactory.cpp", "XX", "YY")) if False else None
quiet("C02", "cc-goto", (BR, "    collectContext(context, metric);\n    return;\n  }\n  pending_contexts.push_back(context);\n  collectPendingContexts();\n}", "    collectContext(context, metric);\n    goto done;\n  }\n  pending_contexts.push_back(context);\n  collectPendingContexts();\ndone:\n  return;\n}"))
bad("C02", "cc-goto-skips", (BR, "  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n    dataset.insert", "  if (metric < 0) goto out;\n  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n    dataset.insert"), (BR, "  apollo->region_executions++;\n\n  autoTrain();", "out:\n  apollo->region_executions++;\n\n  autoTrain();"))
bad("C09", "cc-catch-load", (BD, "    insert(features, policy, xtime);\n  }\n}", "    try {\n      if (xtime != xtime) throw 1;\n      insert(features, policy, xtime);\n    } catch (int) {\n    }\n  }\n}"))

# ---------------------------------------------------------------- dd: trees and forests once more
DI, RI = "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp"
bad("C07", "dd-gini-leaf", (DI, "  if (gini_score <= 0.0f) return node;", "  if (gini_score <= 0.01f) return node;"))
bad("C07", "dd-small-node", (DI, "  if (gini_score <= 0.0f) return node;", "  if (gini_score <= 0.0f || size < 3) return node;"))
bad("C07", "dd-equal-adjacent", (DI, "      if (feature_val_left == feature_val_right) continue;", "      if (feature_val_right - feature_val_left < 1e-6f) continue;"))
bad("C07", "dd-weight", (DI, "      size_t idx = std::distance(Begin, It);", "      size_t idx = std::distance(Begin, It) + 1;"))
bad("C07", "dd-sort-other", (DI, "              return x.first[split_feature_idx] < y.first[split_feature_idx];", "              return x.first[0] < y.first[0];"))
bad("C07", "dd-prune", (DI, "  node->right = build_tree(split_it, End, max_depth, depth + 1);\n", "  node->right = build_tree(split_it, End, max_depth, depth + 1);\n  if (min_gini >= gini_score) node->left = node->right = nullptr;\n"))
bad("C07", "dd-count-bool", (DI, "      if (data_cls == cls) count++;\n    }\n\n    count_per_class", "      if (data_cls == cls) count = std::min(count + 1, 1000);\n    }\n\n    count_per_class"))
bad("C07", "dd-keep-data", (DI, "  data.clear();\n  for (size_t i = 0, end", "  if (data.size() > features.size()) data.clear();\n  for (size_t i = 0, end"))
bad("C07", "dd-leaf-mean", (DI, "  predicted_class = *std::next(DT.classes.begin(), idx);", "  predicted_class = idx;"))
bad("C07", "dd-eval-nan", (DI, "  if (features[tree.feature_idx] < tree.threshold) {\n    if", "  if (!(features[tree.feature_idx] >= tree.threshold) || features[tree.feature_idx] == 0) {\n    if"))
quiet("C07", "dd-sort-skip", (DI, "  std::sort(Begin,\n            End,\n            [&split", "  if (split_feature_idx + 1 != (int)num_features) std::sort(Begin,\n            End,\n            [&split"))
quiet("C07", "dd-eval-not-ge", (DI, "  if (features[tree.feature_idx] < tree.threshold) {\n    if", "  const float f = features[tree.feature_idx];\n  if (f < tree.threshold) {\n    if"))
bad("C10", "dd-else-right", (DI, "  if (tree.right) output_node(outfmt, *tree.right, \"right\");", "  else if (tree.right) output_node(outfmt, *tree.right, \"right\");") if False else (DI, "  if (tree.left) output_node(outfmt, *tree.left, \"left\");\n  if (tree.right)", "  if (tree.left) output_node(outfmt, *tree.left, \"left\");\n  if (tree.right && tree.right->num_samples > 1)"))
bad("C10", "dd-swapped", (DI, "                        left,\n                        right,\n                        count_per_class);", "                        right,\n                        left,\n                        count_per_class);"))
bad("C10", "dd-depth-loaded", (DI, "  parseKeyVal(parser, \"max_depth:\", max_depth);\n\n  parser.getNextToken();\n  parser.parseExpected(\"classes:\");", "  unsigned depth;\n  parseKeyVal(parser, \"max_depth:\", depth);\n  if (depth < max_depth) max_depth = depth;\n\n  parser.getNextToken();\n  parser.parseExpected(\"classes:\");"))
bad("C10", "dd-forest-keeps", (RI, "  rfc.clear();\n  for (int i = 0; i < num_trees; ++i) {", "  if (rfc.size() >= num_trees) rfc.clear();\n  for (int i = 0; i < num_trees; ++i) {"))
bad("C10", "dd-precision", (RI, "  ofs.precision(std::numeric_limits<double>::max_digits10);\n", "  ofs.precision(std::numeric_limits<float>::digits10);\n"))
bad("C10", "dd-threshold-int", (DI, "  parseKeyVal(parser, \"threshold:\", threshold);", "  int whole;\n  parseKeyVal(parser, \"threshold:\", whole);\n  threshold = whole;"))
bad("C10", "dd-counts-key", (DI, "    count_per_class.push_back(val);", "    if (val) count_per_class.push_back(val);"))
bad("C08", "dd-half-own", (RI, "      int sample_idx = uniform_dist(generator);", "      int sample_idx = i % 2 ? uniform_dist(generator) : i;"))
bad("C08", "dd-vote-cap", (RI, "    count_per_class[dtree_prediction]++;", "    if (count_per_class[dtree_prediction] < 100) count_per_class[dtree_prediction]++;"))
bad("C08", "dd-vote-limit", (RI, "    count_per_class[dtree_prediction]++;\n", "    count_per_class[dtree_prediction]++;\n    if (&dtree == &rfc[31]) break;\n"))
bad("C08", "dd-winner-skips-last", (RI, "  for (size_t i = 1; i < num_classes; ++i)\n", "  for (size_t i = 1; i + 1 < num_classes; ++i)\n"))
bad("C08", "dd-depth-less", (RI, "        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandom", "        num_classes, sample_features, sample_responses, max_depth ? max_depth - 1 : 0));\n  }\n}\n\nRandom"))
bad("C08", "dd-one-sample-set", (RI, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;\n", "  rfc.clear();\n  std::vector<std::vector<float>> sample_features;\n  std::vector<int> sample_responses;\n  for (unsigned i = 0; i < num_trees; i++) {\n    sample_features.clear();\n"))
bad("C08", "dd-reseeded", (RI, "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n", "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    generator.seed(42);\n"))
quiet("C08", "dd-majority-certain", (RI, "    count_per_class[dtree_prediction]++;\n", "    if (++count_per_class[dtree_prediction] > (int)rfc.size() / 2) break;\n"))
quiet("C08", "dd-static-generator", (RI, "  std::mt19937 generator;\n  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);\n\n  rfc", "  static std::mt19937 generator;\n  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);\n\n  rfc")) if False else None

# ---------------------------------------------------------------- types and cooperating sites
RFIH = "src/models/impl/RandomForestImpl.h"
AH_, PMH, TSH, OPH, DMH, STH, RDH, PNH = ("include/apollo/Apollo.h", "include/apollo/PolicyModel.h", "src/timers/TimerSync.h", "include/apollo/models/Optimal.h",
                                     "include/apollo/models/DatasetMap.h", "include/apollo/models/Static.h", "include/apollo/models/Random.h", "include/apollo/models/PolicyNet.h")
bad("C01", "ee-policy-byte", (RH_, "  int policy;\n  unsigned long long idx;", "  signed char policy;\n  unsigned long long idx;"))
bad("C12", "ee-min-byte", (RH_, "  int min_training_data;\n};", "  unsigned char min_training_data;\n};"))
bad("C12", "ee-executions-byte", (AH_, "  unsigned long long region_executions;", "  unsigned char region_executions;"))
quiet("C12", "ee-executions-size", (AH_, "  unsigned long long region_executions;", "  size_t region_executions;"))
bad("C07", "ee-class-byte", (DTIH, "    int predicted_class;", "    signed char predicted_class;"))
bad("C07", "ee-feature-byte", (DTIH, "    int feature_idx;", "    signed char feature_idx;"))
bad("C10", "ee-samples-short", (DTIH, "    size_t num_samples;\n    int", "    unsigned short num_samples;\n    int"))
bad("C10", "ee-threshold-int", (DTIH, "    float threshold;", "    int threshold;"))
bad("C07", "ee-threshold-int2", (DTIH, "    float threshold;", "    int threshold;"))
quiet("C07", "ee-threshold-double", (DTIH, "    float threshold;", "    double threshold;"))
bad("C08", "ee-trees-byte", (RFIH, "  unsigned num_trees;\n", "  unsigned char num_trees;\n"))
bad("C08", "ee-depth-byte", (RFIH, "  unsigned max_depth;\n}", "  unsigned char max_depth;\n}"))
bad("C05", "ee-static-byte", (STH, "  int policy_choice;", "  signed char policy_choice;"))
bad("C05", "ee-count-byte", (PMH, "  int policy_count;", "  unsigned char policy_count;"))
bad("C05", "ee-optimal-byte", (OPH, "  std::deque<int> optimal_policy;", "  std::deque<signed char> optimal_policy;"))
bad("C16", "ee-policies-byte", (PNH, "  int numPolicies;", "  unsigned char numPolicies;"))
bad("C16", "ee-avg-int", (PNH, "  double rewardMovingAvg = 0;", "  int rewardMovingAvg = 0;"))
bad("C16", "ee-beta-int", (PNH, "  double beta;", "  int beta;"))
bad("C16", "ee-threshold-int", (PNH, "  double threshold;\n  int", "  int threshold;\n  int"))
bad("C16", "ee-count-byte", (PNH, "  int trainCount = 0;", "  signed char trainCount = 0;"))
bad("C23", "ee-float", (TSH, "  double exec_time_begin, exec_time_end;", "  float exec_time_begin, exec_time_end;"))
bad("C03", "ee-float", (DH_, "int>, double> data;", "int>, float> data;"))
bad("C03", "ee-key-double-int", (DH_, "  std::map<std::pair<std::vector<float>, int>, double> data;", "  std::map<std::pair<std::vector<float>, short>, double> data;"))
bad("C21", "ee-name-short", (RH_, "  char name[64];", "  char name[32];"))
bad("C21", "ee-policies-byte", (RH_, "  int num_policies;", "  unsigned char num_policies;"))
bad("C07", "ff-classes-skip-first", (DTI, "  classes.clear();\n  classes.insert(responses.begin(), responses.end());", "  classes.clear();\n  for (size_t i = 1; i < responses.size(); ++i) classes.insert(responses[i]);"))
bad("C07", "ff-classes-kept", (DTI, "  classes.clear();\n  classes.insert(responses.begin(), responses.end());", "  for (int r : responses) classes.insert(r);"))
