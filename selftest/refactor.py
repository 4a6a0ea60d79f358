"""Rewrites that keep the behaviour, as a maintainer would make them."""
CASES = []


def rf(name, *edits):
    CASES.append((name, edits))


R, D, F, A, M = "src/Region.cpp", "src/Dataset.cpp", "src/ModelFactory.cpp", "src/Apollo.cpp", "src/models/"

rf("region-dataset-path-helper",
   (R, "void Apollo::Region::train(int step, bool", '''static std::string datasetPath(const char *name)
{
  return Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_DATASETS_DIR +
         "/Dataset-" + name + ".yaml";
}

void Apollo::Region::train(int step, bool'''),
   *[(R, '''std::string dataset_file = Config::APOLLO_OUTPUT_DIR + "/" +
                               Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                               std::string(name) + ".yaml";''', "const std::string dataset_file = datasetPath(name);")] * 3,
   (R, '''std::ofstream file_out(Config::APOLLO_OUTPUT_DIR + "/" +
                           Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                           std::string(name) + ".yaml");''', "std::ofstream file_out(datasetPath(name));"))

rf("region-load-required-helper",
   (R, "void Apollo::Region::train(int step, bool", '''static void loadRequired(Apollo::Dataset &dataset, const std::string &path)
{
  std::ifstream ifs(path);
  if (!ifs) {
    std::cerr << "ERROR: could not load dataset file " << path << std::endl;
    abort();
  }
  dataset.load(ifs);
  ifs.close();
}

void Apollo::Region::train(int step, bool'''),
   (R, '''    std::ifstream ifs(dataset_file);
    if (!ifs) {
      std::cerr << "ERROR: could not load dataset file " << dataset_file
                << std::endl;
      abort();
    }

    dataset.load(ifs);

    if (dataset.size() <= 0) fatal_error("dataset size is 0");

    // Train with whatever data existing in the dataset, ignore
    // min_training_data (if set).
    train(0);
    ifs.close();
''', '''    loadRequired(dataset, dataset_file);
    if (dataset.size() <= 0) fatal_error("dataset size is 0");
    train(0);
'''),
   (R, '''    std::ifstream ifs(dataset_file);
    if (!ifs) {
      std::cerr << "ERROR: could not load dataset file " << dataset_file
                << std::endl;
      abort();
    }

    dataset.load(ifs);

    ifs.close();
''', '''    loadRequired(dataset, dataset_file);
'''))

rf("region-validate-set",
   (R, '''  if (model_name == "DecisionTree") {
    // "(max_depth)=([0-9]+)"
    // "(explore)=(RoundRobin|Random)"
    // "(load)"
    // "(load-dataset)"
    // "(load)=([a-zA-Z0-9_\\\\-\\\\.]+)"
    for (auto &entry : model_params)
      if (entry.first != "max_depth" && entry.first != "explore" &&
          entry.first != "load" && entry.first != "load-dataset")
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy DecisionTree");

    return;
  }
''', '''  if (model_name == "DecisionTree") {
    static const std::set<std::string> known = {"max_depth", "explore", "load", "load-dataset"};
    for (const auto &entry : model_params)
      if (known.find(entry.first) == known.end())
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy DecisionTree");

    return;
  }
'''), (R, "#include <memory>", "#include <memory>\n#include <set>"))

rf("region-validate-helper",
   (R, '''// TODO: expand validation to parameter values.
static void validate(''', '''static void unknownKey(const std::string &key, const std::string &model)
{
  fatal_error("Unknown param key \\"" + key + "\\" for policy " + model);
}

static bool isOneOf(const std::string &key, const std::vector<std::string> &keys)
{
  return std::find(keys.begin(), keys.end(), key) != keys.end();
}

// TODO: expand validation to parameter values.
static void validate('''),
   (R, '''      if (entry.first != "policy")
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy Static");
''', '''      if (entry.first != "policy") unknownKey(entry.first, "Static");
'''),
   (R, '''      if (entry.first != "num_trees" && entry.first != "max_depth" &&
          entry.first != "explore" && entry.first != "load" &&
          entry.first != "load-dataset")
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy RandomForst");
''', '''      if (!isOneOf(entry.first, {"num_trees", "max_depth", "explore", "load", "load-dataset"}))
        unknownKey(entry.first, "RandomForest");
'''))

rf("region-parse-while",
   (R, '''  std::string model_params_str = model_info.substr(pos + 1);
  do {
    pos = model_params_str.find(",");
    std::string keyval_str = model_params_str.substr(0, pos);

    size_t kv_pos = keyval_str.find("=");
    if (std::string::npos == kv_pos) {
      model_params.emplace(keyval_str, "");
    } else {
      std::string key = keyval_str.substr(0, kv_pos);
      std::string val = keyval_str.substr(kv_pos + 1);
      model_params.emplace(key, val);
    }

    model_params_str = model_params_str.substr(pos + 1);

  } while (std::string::npos != pos);
''', '''  std::string rest = model_info.substr(pos + 1);
  for (;;) {
    pos = rest.find(',');
    const std::string keyval = rest.substr(0, pos);
    const size_t eq = keyval.find('=');
    const std::string key = keyval.substr(0, eq);
    const std::string val = eq == std::string::npos ? "" : keyval.substr(eq + 1);
    model_params.emplace(key, val);
    if (pos == std::string::npos) break;
    rest = rest.substr(pos + 1);
  }
'''))

rf("region-parse-index",
   (R, '''  std::string model_params_str = model_info.substr(pos + 1);
  do {
    pos = model_params_str.find(",");
    std::string keyval_str = model_params_str.substr(0, pos);
''', '''  size_t start = pos + 1;
  do {
    pos = model_info.find(",", start);
    std::string keyval_str = model_info.substr(start, pos == std::string::npos ? pos : pos - start);
'''), (R, '''    model_params_str = model_params_str.substr(pos + 1);

  } while''', '''    start = pos + 1;
  } while'''))

rf("region-train-merge-ifs",
   (R, '''  if (!force)
    if (!model->isTrainable()) return;
''', '''  if (!(force || model->isTrainable())) return;
'''), (R, '''  if (dataset.size() <= 0) return;

  if (!Config::APOLLO_REGION_MODEL)
    throw''', '''  if (dataset.size() == 0) return;

  if (Config::APOLLO_REGION_MODEL == 0)
    throw'''))

rf("region-train-trace-helper",
   (R, "void Apollo::Region::train(int step, bool", '''static std::string bestPolicies(Apollo::Dataset &dataset, int rank, const char *name)
{
  std::stringstream out;
  out << "=== Rank " << rank << " BEST POLICIES Region " << name << " ===" << "\\n";
  std::vector<std::vector<float>> features;
  std::vector<int> responses;
  std::map<std::vector<float>, std::pair<int, double>> best;
  dataset.findMinMetricPolicyByFeatures(features, responses, best);
  for (const auto &entry : best) {
    out << "[ ";
    for (float f : entry.first)
      out << static_cast<int>(f) << ", ";
    out << "] P:" << entry.second.first << " T: " << entry.second.second << "\\n";
  }
  return out.str();
}

void Apollo::Region::train(int step, bool'''),
   (R, '''    std::stringstream trace_out;
    trace_out << "=== Rank " << apollo->mpiRank << " BEST POLICIES Region "
              << name << " ===" << std::endl;

    std::vector<std::vector<float>> features;
    std::vector<int> responses;
    std::map<std::vector<float>, std::pair<int, double>> min_metric_policies;
    dataset.findMinMetricPolicyByFeatures(features,
                                          responses,
                                          min_metric_policies);
    for (auto &b : min_metric_policies) {
      trace_out << "[ ";
      for (auto &f : b.first)
        trace_out << (int)f << ", ";
      trace_out << "] P:" << b.second.first << " T: " << b.second.second
                << std::endl;
    }
    std::cout << trace_out.str();
''', '''    const std::string report = bestPolicies(dataset, apollo->mpiRank, name);
    std::cout << report;
'''), (R, "    fout << trace_out.str();\n    fout.close();\n  }\n\n  model->train", "    fout << report;\n    fout.close();\n  }\n\n  model->train"))

rf("region-collect-manual-loop",
   (R, '''  auto isDone = [this](Apollo::RegionContext *context) {
    if (!context->timer)
      throw std::runtime_error("No timer has been set for the context");
    double metric;
    if (context->timer->isDone(metric)) {
      collectContext(context, metric);
      return true;
    }

    return false;
  };

  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());
''', '''  for (auto it = pending_contexts.begin(); it != pending_contexts.end();) {
    Apollo::RegionContext *context = *it;
    if (!context->timer)
      throw std::runtime_error("No timer has been set for the context");
    double metric;
    if (context->timer->isDone(metric)) {
      collectContext(context, metric);
      it = pending_contexts.erase(it);
    } else
      ++it;
  }
'''))

rf("region-collect-keep",
   (R, '''  auto isDone = [this](Apollo::RegionContext *context) {
    if (!context->timer)
      throw std::runtime_error("No timer has been set for the context");
    double metric;
    if (context->timer->isDone(metric)) {
      collectContext(context, metric);
      return true;
    }

    return false;
  };

  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());
''', '''  std::vector<Apollo::RegionContext *> running;
  for (auto *context : pending_contexts) {
    if (!context->timer)
      throw std::runtime_error("No timer has been set for the context");
    double metric;
    if (!context->timer->isDone(metric)) {
      running.push_back(context);
      continue;
    }
    collectContext(context, metric);
  }
  pending_contexts = running;
'''))

rf("region-collect-trace-helper",
   (R, '''void Apollo::Region::collectContext(Apollo::RegionContext *context,
                                    double metric)
{
  if (Config::APOLLO_TRACE_CSV) {''', '''void Apollo::Region::traceContext(Apollo::RegionContext *context, double metric)
{
'''), (R, '''    trace_file << context->policy << " ";
    trace_file << metric << "\\n";
  }
''', '''    trace_file << context->policy << " " << metric << "\\n";
}

void Apollo::Region::collectContext(Apollo::RegionContext *context,
                                    double metric)
{
  if (Config::APOLLO_TRACE_CSV) traceContext(context, metric);
'''), ("include/apollo/Region.h", "  void collectPendingContexts();", "  void collectPendingContexts();\n  void traceContext(Apollo::RegionContext *context, double metric);"))

rf("region-autotrain-bool",
   (R, '''  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
      (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {
    apollo->train(apollo->region_executions,
                  /* doCollectPendingContexts */ false);
  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD &&
             (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {
    train(idx, /* doCollectPendingContexts */ false);
  } else if (0 < min_training_data && min_training_data <= dataset.size())
    train(idx, /* doCollectPendingContexts */ false);
''', '''  const int global = Config::APOLLO_GLOBAL_TRAIN_PERIOD;
  const int own = Config::APOLLO_PER_REGION_TRAIN_PERIOD;
  if (global != 0 && apollo->region_executions % global == 0) {
    apollo->train(apollo->region_executions, false);
    return;
  }
  const bool period = own != 0 && idx % own == 0;
  const bool enough = min_training_data > 0 && dataset.size() >= min_training_data;
  if (period || enough) train(idx, false);
'''))

rf("region-begin-reorder",
   (R, '''  current_context = context;
  context->idx = this->idx;
  this->idx++;
''', '''  context->idx = idx++;
  current_context = context;
'''), (R, '''  Apollo::RegionContext *context = begin();
  context->features = features;
  return context;''', '''  Apollo::RegionContext *context = begin(TIMING_SYNC);
  context->features.assign(features.begin(), features.end());
  return context;'''))

rf("region-create-context-if",
   (R, '''  Apollo::RegionContext *context = nullptr;
  switch (tk) {
    case TIMING_SYNC:
      context = &sync_context;
      // Clear the features vector because the sync_context is persistent.
      context->features.clear();
      break;
''', '''  Apollo::RegionContext *context = nullptr;
  switch (tk) {
    case TIMING_SYNC: {
      sync_context.features.clear();
      context = &sync_context;
      break;
    }
'''), (R, "  if (context == &sync_context) return;\n\n  delete context;", "  if (context != &sync_context) delete context;"))

rf("region-end-split",
   (R, '''  context->timer->stop();
  if (context == &sync_context) {
    double metric;
    context->timer->isDone(metric);
    collectContext(context, metric);
    return;
  }
  pending_contexts.push_back(context);
  collectPendingContexts();
''', '''  auto &timer = context->timer;
  timer->stop();
  const bool async = context != &sync_context;
  if (async) {
    pending_contexts.emplace_back(context);
    collectPendingContexts();
  } else {
    double metric = 0;
    timer->isDone(metric);
    collectContext(context, metric);
  }
'''))

rf("region-ctor-locals",
   (R, '''  apollo = Apollo::instance();

  // Create timer''', '''  apollo = Apollo::instance();
  const std::string region_name(regionName);

  // Create timer'''),
   (R, '''  strncpy(name, regionName, sizeof(name) - 1);
  name[sizeof(name) - 1] = '\\0';
''', '''  std::strncpy(name, region_name.c_str(), sizeof(name) - 1);
  name[sizeof(name) - 1] = 0;
'''),
   (R, '''    std::string model_file;
    if (model_params["load"].empty())
      model_file = Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR +
                   "/" + model_name + "-latest-rank-" +
                   std::to_string(apollo->mpiRank) + "-" + std::string(name) +
                   ".yaml";
    else
      model_file = model_params["load"];

    if (fileExists(model_file)) {
      // std::cout << "Model Load " << model_file << std::endl;
      model->load(model_file);
    } else {
      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();
    }
''', '''    const std::string &given = model_params.at("load");
    const std::string model_file =
        !given.empty() ? given
                       : Config::APOLLO_OUTPUT_DIR + "/" +
                             Config::APOLLO_MODELS_DIR + "/" + model_name +
                             "-latest-rank-" + std::to_string(apollo->mpiRank) +
                             "-" + name + ".yaml";

    if (!fileExists(model_file)) {
      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();
    }
    model->load(model_file);
'''),
   (R, '''  const auto ret = apollo->regions.insert({name, this});

  return;
''', '''  apollo->regions.emplace(name, this);
'''))

rf("region-ctor-static-region",
   (R, '''    auto it = model_params.find(name);
    if (it == model_params.end())
      fatal_error("Region name " + std::string(name) +
                  " was not found in StaticRegion parameters");
    // Replace with a Static policy for the region.
    model_name = "Static";
    std::string policy = it->second;
    model_params.clear();
    model_params.emplace("policy", policy);
    model_info = "Static,policy=" + policy;
''', '''    if (model_params.count(name) == 0)
      fatal_error("Region name " + std::string(name) +
                  " was not found in StaticRegion parameters");
    const std::string policy = model_params[name];
    model_name = "Static";
    model_params = {{"policy", policy}};
    model_info = model_name + ",policy=" + policy;
'''))

rf("region-dtor",
   (R, '''  while (pending_contexts.size() > 0)
    collectPendingContexts();

  if (Config::APOLLO_TRACE_CSV) trace_file.close();
''', '''  while (!pending_contexts.empty()) {
    collectPendingContexts();
  }

  if (Config::APOLLO_TRACE_CSV) {
    trace_file.flush();
    trace_file.close();
  }
'''))

rf("region-store-helper",
   (R, '''    model->store(filename);

    if (Config::APOLLO_RETRAIN_ENABLE) {''', '''    const std::string latest = filename;
    model->store(latest);

    if (Config::APOLLO_RETRAIN_ENABLE) {'''))

rf("dataset-insert-trymplace",
   (D, '''  auto key = std::make_pair(std::move(features), policy);
  auto it = data.find(key);
  if (it == data.end())
    data.emplace(std::move(key), metric);
  else
    // Exponential moving average (a=0.5) to update the metric.
    it->second = .5 * it->second + .5 * metric;
''', '''  const auto key = std::make_pair(features, policy);
  auto result = data.emplace(key, metric);
  if (!result.second) {
    double &avg = result.first->second;
    avg = (avg + metric) / 2;
  }
'''))

rf("dataset-insert-count",
   (D, '''  auto key = std::make_pair(std::move(features), policy);
  auto it = data.find(key);
  if (it == data.end())
    data.emplace(std::move(key), metric);
  else
    // Exponential moving average (a=0.5) to update the metric.
    it->second = .5 * it->second + .5 * metric;
''', '''  std::pair<std::vector<float>, int> key(features, policy);
  if (data.count(key) > 0) {
    const double old = data[key];
    data[key] = old * 0.5 + metric * 0.5;
    return;
  }
  data[key] = metric;
'''))

rf("dataset-insert-ds-bind",
   (D, '''  for (auto &d : ds.data) {
    auto features = d.first.first;
    auto policy = d.first.second;
    auto metric = d.second;
    insert(features, policy, metric);
  }
''', '''  for (const auto &[key, metric] : ds.data) {
    std::vector<float> features(key.first);
    insert(features, key.second, metric);
  }
'''))

rf("dataset-insert-ds-iter",
   (D, '''  for (auto &d : ds.data) {
    auto features = d.first.first;
    auto policy = d.first.second;
    auto metric = d.second;
    insert(features, policy, metric);
  }
''', '''  for (auto it = ds.data.begin(); it != ds.data.end(); ++it) {
    std::vector<float> features = it->first.first;
    insert(features, it->first.second, it->second);
  }
'''))

rf("dataset-tuples-emplace",
   (D, '''  std::vector<std::tuple<std::vector<float>, int, double>> vector;
  for (const auto &d : data) {
    const auto &features = d.first.first;
    const auto &policy = d.first.second;
    const auto &metric = d.second;
    vector.push_back(std::make_tuple(features, policy, metric));
  }
''', '''  std::vector<std::tuple<std::vector<float>, int, double>> vector;
  vector.reserve(data.size());
  for (auto it = data.cbegin(); it != data.cend(); ++it)
    vector.emplace_back(it->first.first, it->first.second, it->second);
'''))

rf("dataset-tuples-transform",
   (D, '''  for (const auto &d : data) {
    const auto &features = d.first.first;
    const auto &policy = d.first.second;
    const auto &metric = d.second;
    vector.push_back(std::make_tuple(features, policy, metric));
  }
''', '''  std::transform(data.begin(), data.end(), std::back_inserter(vector), [](const auto &d) {
    return std::make_tuple(d.first.first, d.first.second, d.second);
  });
'''), (D, '#include "apollo/Dataset.h"', '#include "apollo/Dataset.h"\n#include <algorithm>\n#include <iterator>'))

rf("dataset-min-iter",
   (D, '''    auto iter = best_policies.find(features);
    if (iter == best_policies.end()) {
      best_policies.insert(
          std::make_pair(features, std::make_pair(policy, avg)));
    } else {
      double prev_avg = best_policies[features].second;
      if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);
    }
''', '''    auto iter = best_policies.find(features);
    if (iter != best_policies.end()) {
      if (iter->second.second > avg) iter->second = {policy, avg};
      continue;
    }
    best_policies[features] = {policy, avg};
'''))

rf("dataset-min-cond",
   (D, '''    auto iter = best_policies.find(features);
    if (iter == best_policies.end()) {
      best_policies.insert(
          std::make_pair(features, std::make_pair(policy, avg)));
    } else {
      double prev_avg = best_policies[features].second;
      if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);
    }
''', '''    if (best_policies.count(features) == 0 ||
        avg < best_policies.at(features).second)
      best_policies[features] = std::make_pair(policy, avg);
'''), (D, '''    const auto &train_features = b.first;
    const auto &policy = b.second.first;

    features.push_back(train_features);
    policies.push_back(policy);
''', '''    features.emplace_back(b.first);
    policies.emplace_back(b.second.first);
'''))

rf("dataset-min-swap",
   (D, "  min_metric_policies = best_policies;\n", "  min_metric_policies = std::move(best_policies);\n"))

rf("dataset-min-insert-result",
   (D, '''    auto iter = best_policies.find(features);
    if (iter == best_policies.end()) {
      best_policies.insert(
          std::make_pair(features, std::make_pair(policy, avg)));
    } else {
      double prev_avg = best_policies[features].second;
      if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);
    }
''', '''    auto inserted = best_policies.insert({features, {policy, avg}});
    if (inserted.second) continue;
    auto &best = inserted.first->second;
    if (avg < best.second) {
      best.first = policy;
      best.second = avg;
    }
'''))

rf("dataset-store-helper",
   (D, '''void Apollo::Dataset::store(std::ostream &os)
{''', '''static void storeFeatures(std::ostream &os, const std::vector<float> &features)
{
  os << "features: [ ";
  for (float f : features)
    os << f << ", ";
  os << "], ";
}

void Apollo::Dataset::store(std::ostream &os)
{'''),
   (D, '''    os << "  " << idx << ": { features: [ ";
    for (auto &f : features)
      os << float(f) << ", ";
    os << "], ";
    os << "policy: " << policy << ", ";
    os << "xtime: " << metric;
    os << " },\\n";
    ++idx;
''', '''    os << "  " << idx++ << ": { ";
    storeFeatures(os, features);
    os << "policy: " << policy << ", xtime: " << metric << " }," << "\\n";
'''))

rf("dataset-load-lambda",
   (D, '''  Parser parser(is);
  parser.getNextToken();
  parser.parseExpected("data:");

  parser.getNextToken();
  parser.parseExpected("{");
''', '''  Parser parser(is);
  auto expect = [&parser](const char *s) {
    parser.getNextToken();
    parser.parseExpected(s);
  };
  expect("data:");
  expect("{");
'''), (D, '''    parser.getNextToken();
    parser.parseExpected("{");

    parser.getNextToken();
    parser.parseExpected("features:");

    parser.getNextToken();
    parser.parseExpected("[");
''', '''    expect("{");
    expect("features:");
    expect("[");
'''))

rf("dataset-load-for",
   (D, '''    while (!parser.getNextTokenEquals("],")) {
      float feature;
      parser.parse<float>(feature);
      parser.parseExpected(",");
      features.push_back(feature);
    }
''', '''    for (;;) {
      if (parser.getNextTokenEquals("],")) break;
      features.emplace_back();
      parser.parse<float>(features.back());
      parser.parseExpected(",");
    }
'''))

EXPL = '''    std::unique_ptr<PolicyModel> explorer;
    it = model_params.find("explore");
    // TODO: enable explore_model_params? unneeded for now.
    std::unordered_map<std::string, std::string> explore_model_params;
    if (it != model_params.end())
      explorer = createPolicyModel(it->second,
                                   num_features,
                                   num_policies,
                                   explore_model_params);
    else
      // Default explorer model is RoundRobin.
      explorer = createPolicyModel("RoundRobin",
                                   num_features,
                                   num_policies,
                                   explore_model_params);
'''
EXPL2 = EXPL.replace("    // TODO: enable explore_model_params? unneeded for now.\n", '''    // TODO: Should we enable explore_model_params? It is unneeded for now since
    // exploration models RoundRobin, Random currently have no params.
''')

rf("factory-explorer-helper",
   (F, '''std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
    const std::string &model_name,
    int num_features,''', '''static std::unique_ptr<PolicyModel> createExplorer(
    std::unordered_map<std::string, std::string> &model_params,
    int num_features,
    int num_policies)
{
  const auto it = model_params.find("explore");
  const std::string kind = it == model_params.end() ? "RoundRobin" : it->second;
  std::unordered_map<std::string, std::string> none;
  return ModelFactory::createPolicyModel(kind, num_features, num_policies, none);
}

std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
    const std::string &model_name,
    int num_features,'''),
   (F, EXPL, "    auto explorer = createExplorer(model_params, num_features, num_policies);\n"),
   (F, EXPL2, "    auto explorer = createExplorer(model_params, num_features, num_policies);\n"))

rf("factory-param-helper",
   (F, '''std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
    const std::string &model_name,
    int num_features,''', '''static unsigned numberOr(const std::unordered_map<std::string, std::string> &params, const char *key, unsigned value)
{
  auto it = params.find(key);
  return it == params.end() ? value : std::stoul(it->second);
}

std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
    const std::string &model_name,
    int num_features,'''),
   (F, '''    unsigned num_trees = 10;
    unsigned max_depth = 2;
    auto it = model_params.find("num_trees");
    if (it != model_params.end()) num_trees = std::stoul(it->second);
    it = model_params.find("max_depth");
    if (it != model_params.end()) max_depth = std::stoul(it->second);
''', '''    const unsigned num_trees = numberOr(model_params, "num_trees", 10);
    const unsigned max_depth = numberOr(model_params, "max_depth", 2);
    auto it = model_params.end();
'''))

rf("factory-early-returns",
   (F, '''    return std::make_unique<Static>(num_policies, policy);
  } else if (model_name == "DatasetMap") {
    return std::make_unique<DatasetMap>(num_policies);
  } else if (model_name == "Random") {
    return std::make_unique<Random>(num_policies);
  } else if (model_name == "RoundRobin") {
    return std::make_unique<RoundRobin>(num_policies);
  } else if (model_name == "DecisionTree") {''', '''    return std::unique_ptr<PolicyModel>(new Static(num_policies, policy));
  }
  if (model_name == "RoundRobin") return std::make_unique<RoundRobin>(num_policies);
  if (model_name == "Random") return std::make_unique<Random>(num_policies);
  if (model_name == "DatasetMap") return std::make_unique<DatasetMap>(num_policies);
  if (model_name == "DecisionTree") {'''),
   (F, '''    int policy = 0;
    auto it = model_params.find("policy");
    if (it != model_params.end()) policy = std::stoi(it->second);
''', '''    const int policy_param = model_params.count("policy") ? std::stoi(model_params["policy"]) : 0;
    int policy = policy_param;
'''))

rf("models-roundrobin",
   (M + "RoundRobin.cpp", '''  int choice = (last_policy + 1) % policy_count;
  last_policy = choice;
  return choice;
''', '''  if (++last_policy >= policy_count) last_policy = 0;
  return last_policy;
'''))

rf("models-roundrobin-mod",
   (M + "RoundRobin.cpp", '''  int choice = (last_policy + 1) % policy_count;
  last_policy = choice;
  return choice;
''', '''  last_policy++;
  last_policy %= policy_count;
  return last_policy;
'''))

rf("models-random",
   (M + "Random.cpp", '''  int choice = 0;

  if (policy_count > 1) {''', '''  if (policy_count <= 1) return 0;
  int choice = 0;
  {'''), (M + "Random.cpp", '''  } else {
    choice = 0;
  }
''', "  }\n"), (M + "Random.cpp", '''Random::Random(int num_policies) : PolicyModel(num_policies, "Random")
{
  random_gen = std::mt19937(random_dev());
  random_dist = std::uniform_int_distribution<>(0, policy_count - 1);
}''', '''Random::Random(int num_policies)
    : PolicyModel(num_policies, "Random"), random_gen(random_dev()), random_dist(0, num_policies - 1)
{
}'''))

rf("models-optimal-shared",
   (M + "Optimal.cpp", '''Optimal::Optimal(std::string file) : PolicyModel(0, "Optimal")
{
  std::ifstream infile(file);
  std::string policy_str;

  while (std::getline(infile, policy_str, ','))
    optimal_policy.push_back(std::stoi(policy_str));

  infile.close();
}''', '''Optimal::Optimal(std::string file) : PolicyModel(0, "Optimal")
{
  load(file);
}'''), (M + "Optimal.cpp", '''  int policy = optimal_policy.front();
  optimal_policy.pop_front();
  return policy;''', '''  const auto policy = optimal_policy.at(0);
  optimal_policy.erase(optimal_policy.begin());
  return policy;'''))

rf("models-datasetmap-find",
   (M + "DatasetMap.cpp", '''  if (best_policies.count(features) == 0) {
    std::cerr << "DatasetMap does not have an entry for those features\\n";
    abort();
  }

  int policy = best_policies[features].first;

  return policy;''', '''  const auto it = best_policies.find(features);
  if (it == best_policies.end()) {
    std::cerr << "DatasetMap does not have an entry for those features\\n";
    abort();
  }

  return it->second.first;'''))

rf("models-dtree",
   (M + "DecisionTree.cpp", '''  if (!trainable) return dtree->predict(features);

  return explorer->getIndex(features);''', '''  return trainable ? explorer->getIndex(features) : dtree->predict(features);'''),
   (M + "DecisionTree.cpp", '''  trainable = false;
#ifdef ENABLE_OPENCV
  // The OpenCV load is static and returns the loaded model.
  dtree = DTrees::load(filename);
#else
  dtree->load(filename);
#endif
''', '''#ifdef ENABLE_OPENCV
  // The OpenCV load is static and returns the loaded model.
  dtree = DTrees::load(filename);
#else
  dtree->load(filename);
#endif
  trainable = false;
'''))

P = "src/helpers/Parser.cpp"
rf("parser-skip-helper",
   (P, '''  int idx = 0;
  if (it != end) {
    while (std::isspace(*it))
      ++it;

    while (*it == '#') {
      is.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');
      while (std::isspace(*it))
        ++it;
    }
''', '''  auto skipBlanks = [&it]() {
    while (std::isspace(*it))
      ++it;
  };
  int idx = 0;
  if (it != end) {
    skipBlanks();

    while (*it == '#') {
      is.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');
      skipBlanks();
    }
'''))
rf("parser-string-compare",
   (P, "  return (std::strcmp(token, s) == 0);", "  return std::string(token) == s;"),
   (P, "  if (std::strcmp(token, expected)) {", "  if (!getTokenEquals(expected)) {"))
rf("parser-postincrement",
   (P, '''      buffer[idx] = *it;
      ++idx;
      ++it;
''', '''      buffer[idx++] = *it++;
'''))

rf("apollo-getenv-helper",
   (A, '''Apollo::Apollo()
{
  region_executions = 0;
''', '''static int flag(const char *name, const char *value)
{
  return std::stoi(apolloUtils::safeGetEnv(name, value));
}

Apollo::Apollo()
{
  region_executions = 0;
'''),
   *[(A, 'std::stoi(apolloUtils::safeGetEnv("%s", "%s"))' % (n, v), 'flag("%s", "%s")' % (n, v)) for n, v in
     (("APOLLO_COLLECTIVE_TRAINING", 0), ("APOLLO_LOCAL_TRAINING", 1), ("APOLLO_SINGLE_MODEL", 0), ("APOLLO_REGION_MODEL", 1),
      ("APOLLO_GLOBAL_TRAIN_PERIOD", 0), ("APOLLO_TRACE_CSV", 0), ("APOLLO_PERSISTENT_DATASETS", 0))])

rf("apollo-safegetenv",
   (A, '''  char *c = getenv(var_name);
  if (c == NULL) {
    if (not silent) {
      std::cout << "== APOLLO: Looked for " << var_name
                << " with getenv(), found nothing, using '"
                << use_this_if_not_found << "' (default) instead." << std::endl;
    }
    return use_this_if_not_found;
  } else {
    return c;
  }
''', '''  const char *found = std::getenv(var_name);
  if (found) return found;
  if (!silent)
    std::cout << "== APOLLO: Looked for " << var_name
              << " with getenv(), found nothing, using '"
              << use_this_if_not_found << "' (default) instead." << std::endl;
  return use_this_if_not_found;
'''))

rf("apollo-config-xor",
   (A, '''  if (Config::APOLLO_SINGLE_MODEL && Config::APOLLO_REGION_MODEL) {
    std::cerr << "Both global and region modeling cannot be enabled"
              << std::endl;
    abort();
  }


  if (!(Config::APOLLO_SINGLE_MODEL || Config::APOLLO_REGION_MODEL)) {
    std::cerr << "Either global or region modeling must be enabled"
              << std::endl;
    abort();
  }
''', '''  const bool single = Config::APOLLO_SINGLE_MODEL != 0;
  const bool per_region = Config::APOLLO_REGION_MODEL != 0;
  if (single == per_region) {
    std::cerr << (single ? "Both global and region modeling cannot be enabled"
                         : "Either global or region modeling must be enabled")
              << std::endl;
    abort();
  }
'''))

rf("apollo-dirs-lambda",
   (A, '''  if (Config::APOLLO_PERSISTENT_DATASETS)
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" +
                           Config::APOLLO_DATASETS_DIR);

  if (Config::APOLLO_TRACE_CSV)
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" +
                           Config::APOLLO_TRACES_DIR);

  if (Config::APOLLO_STORE_MODELS)
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" +
                           Config::APOLLO_MODELS_DIR);
''', '''  auto createSubDir = [](bool wanted, const std::string &name) {
    if (!wanted) return;
    apolloUtils::createDir(Config::APOLLO_OUTPUT_DIR + "/" + name);
  };
  createSubDir(Config::APOLLO_STORE_MODELS, Config::APOLLO_MODELS_DIR);
  createSubDir(Config::APOLLO_TRACE_CSV, Config::APOLLO_TRACES_DIR);
  createSubDir(Config::APOLLO_PERSISTENT_DATASETS, Config::APOLLO_DATASETS_DIR);
'''))

rf("apollo-createdir",
   (A, '''  int ret = mkdir(dirname.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
  if (ret != 0 && errno != EEXIST)
    throw std::runtime_error("Error creating directory " + dirname + " : " +
                             strerror(errno));
''', '''  const mode_t mode = S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH;
  if (mkdir(dirname.c_str(), mode) == 0) return;
  if (errno == EEXIST) return;
  throw std::runtime_error("Error creating directory " + dirname + " : " + strerror(errno));
'''))

rf("apollo-dtor-split",
   (A, '''    for (auto it : regions) {
      Region *r = it.second;
      file_out << r->name << ", " << r->idx << "\\n";
    }
    file_out.close();
  }
  for (auto &it : regions) {
    Region *r = it.second;
    delete r;
  }
''', '''    for (const auto &entry : regions)
      file_out << entry.second->name << ", " << entry.second->idx << '\\n';
    file_out.close();
  }
  for (auto it = regions.begin(); it != regions.end(); ++it)
    delete it->second;
'''))

rf("apollo-pack-size",
   (A, '''  int size = 0, measure_size = 0;
  // rank
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // num features
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // feature vector
  MPI_Pack_size(num_features, MPI_FLOAT, comm, &size);
  measure_size += size;
  // policy
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // region name
  MPI_Pack_size(64, MPI_CHAR, comm, &size);
  measure_size += size;
  // metric
  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);
  measure_size += size;

  return measure_size;
''', '''  int int_size, feature_size, name_size, metric_size;
  MPI_Pack_size(1, MPI_INT, comm, &int_size);
  MPI_Pack_size(num_features, MPI_FLOAT, comm, &feature_size);
  MPI_Pack_size(64, MPI_CHAR, comm, &name_size);
  MPI_Pack_size(1, MPI_DOUBLE, comm, &metric_size);
  // rank, num features and policy are integers
  return 3 * int_size + feature_size + name_size + metric_size;
'''))

rf("apollo-gather-vectors",
   (A, "  int recv_size_per_rank[num_ranks];\n", "  std::vector<int> recv_size_per_rank(num_ranks);\n"),
   (A, "&send_size, 1, MPI_INT, &recv_size_per_rank, 1, MPI_INT, apollo_mpi_comm);", "&send_size, 1, MPI_INT, recv_size_per_rank.data(), 1, MPI_INT, apollo_mpi_comm);"),
   (A, "  int disp[num_ranks];\n  disp[0] = 0;\n", "  std::vector<int> disp(num_ranks, 0);\n"),
   (A, '''                 recvbuf,
                 recv_size_per_rank,
                 disp,
''', '''                 recvbuf,
                 recv_size_per_rank.data(),
                 disp.data(),
'''))

rf("apollo-gather-one-loop",
   (A, '''  int recv_size = 0;
  // std::cout << "RECV SIZES: " ;
  for (int i = 0; i < num_ranks; i++) {
    // std::cout << i << ":" << recv_size_per_rank[i] << ", ";
    recv_size += recv_size_per_rank[i];
  }
  // std::cout << std::endl;
''', '''  int recv_size = 0;
  int disp[num_ranks];
  for (int i = 0; i < num_ranks; i++) {
    disp[i] = recv_size;
    recv_size += recv_size_per_rank[i];
  }
'''), (A, '''  int disp[num_ranks];
  disp[0] = 0;
  for (int i = 1; i < num_ranks; i++) {
    disp[i] = disp[i - 1] + recv_size_per_rank[i - 1];
  }
''', ""))

rf("apollo-gather-insert-if",
   (A, '''    // Do not re-insert this rank's measurements
    if (rank == mpiRank) continue;

    // Find local region to reduce collective training data
    // TODO keep unseen regions to boostrap their models on execution?
    auto reg_iter = regions.find(region_name);
    if (reg_iter != regions.end()) {
      Region *reg = reg_iter->second;
      reg->dataset.insert(features, policy, metric);
    }
''', '''    if (rank != mpiRank && regions.count(region_name))
      regions[region_name]->dataset.insert(features, policy, metric);
'''))

rf("apollo-train-branches",
   (A, '''    // There is nothing to train on.
    if (merged_dataset.size() <= 0) return;
''', '''    if (merged_dataset.size() == 0) return;
'''), (A, '''  } else {
    for (auto &it : regions) {
      Region *reg = it.second;
      reg->train(step, doCollectPendingContexts);
    }
  }

  return;
''', '''    return;
  }

  for (auto &entry : regions)
    entry.second->train(step, doCollectPendingContexts);
'''), (A, '''      if (reg->model->isTrainable()) reg->model->train(merged_dataset);
''', '''      auto &model = reg->model;
      if (!model->isTrainable()) continue;
      model->train(merged_dataset);
'''))

I = M + "impl/DecisionTreeImpl.cpp"
GINI = '''    int cls = *it;
    int count = 0;
    for (auto It = Begin; It != End; ++It) {
      int data_cls = It->second;
      if (data_cls == cls) count++;
    }
'''
rf("tree-count-if",
   (I, GINI, '''    const int cls = *it;
    const int count = std::count_if(Begin, End, [cls](const std::pair<std::vector<float>, int> &d) { return d.second == cls; });
'''), (I, GINI, '''    const int cls = *it;
    const int count = std::count_if(Begin, End, [cls](const std::pair<std::vector<float>, int> &d) { return d.second == cls; });
'''))
rf("tree-gini-rangefor",
   (I, '''  for (auto it = classes.begin(), end = classes.end(); it != end; ++it) {
    int cls = *it;
    int count = 0;
    for (auto It = Begin; It != End; ++It) {
      int data_cls = It->second;
      if (data_cls == cls) count++;
    }

    float p = (float)count / n_total;
    g += (p * p);
  }
''', '''  for (int cls : classes) {
    int count = 0;
    for (auto It = Begin; It != End; ++It)
      count += It->second == cls ? 1 : 0;

    const float p = static_cast<float>(count) / n_total;
    g = g + p * p;
  }
'''))
rf("tree-gini-from-counts",
   (I, '''  float g = 0.0f;
  size_t n_total = std::distance(Begin, End);

  for (auto it = classes.begin(), end = classes.end(); it != end; ++it) {
    int cls = *it;
    int count = 0;
    for (auto It = Begin; It != End; ++It) {
      int data_cls = It->second;
      if (data_cls == cls) count++;
    }

    float p = (float)count / n_total;
    g += (p * p);
  }
''', '''  float g = 0.0f;
  size_t n_total = std::distance(Begin, End);

  for (size_t count : get_count_per_class(Begin, End)) {
    float p = (float)count / n_total;
    g += (p * p);
  }
'''))
rf("tree-evaluate-loop",
   (I, '''  // leaf node, return predicted class.
  if (tree.feature_idx == -1) return tree.predicted_class;

  if (features[tree.feature_idx] < tree.threshold) {
    if (tree.left) return evaluate_tree(*tree.left, features);
  } else if (tree.right)
    return evaluate_tree(*tree.right, features);
  return tree.predicted_class;
''', '''  const Node *node = &tree;
  while (node->feature_idx != -1) {
    const Node *next = features[node->feature_idx] < node->threshold ? node->left : node->right;
    if (!next) break;
    node = next;
  }
  return node->predicted_class;
'''))
rf("tree-evaluate-next",
   (I, '''  if (features[tree.feature_idx] < tree.threshold) {
    if (tree.left) return evaluate_tree(*tree.left, features);
  } else if (tree.right)
    return evaluate_tree(*tree.right, features);
  return tree.predicted_class;
''', '''  const bool less = features[tree.feature_idx] < tree.threshold;
  const Node *child = less ? tree.left : tree.right;
  return child ? evaluate_tree(*child, features) : tree.predicted_class;
'''))
rf("tree-split-less",
   (I, '''  size_t num_features = Begin->first.size();
  for (int feature_idx = 0; feature_idx < num_features; ++feature_idx) {
    // Sort based on this specific feature index (sorting does not
    // invalidate iterators).
    std::sort(Begin,
              End,
              [&feature_idx](const std::pair<std::vector<float>, int> &x,
                             const std::pair<std::vector<float>, int> &y) {
                return x.first[feature_idx] < y.first[feature_idx];
              });
''', '''  auto sort_by = [&](int idx) {
    std::sort(Begin, End, [idx](const std::pair<std::vector<float>, int> &x,
                                const std::pair<std::vector<float>, int> &y) {
      return x.first[idx] < y.first[idx];
    });
  };
  size_t num_features = Begin->first.size();
  for (int feature_idx = 0; feature_idx < num_features; ++feature_idx) {
    sort_by(feature_idx);
'''), (I, '''  std::sort(Begin,
            End,
            [&split_feature_idx](const std::pair<std::vector<float>, int> &x,
                                 const std::pair<std::vector<float>, int> &y) {
              return x.first[split_feature_idx] < y.first[split_feature_idx];
            });
''', "  sort_by(split_feature_idx);\n"))
rf("tree-split-if",
   (I, '''      // This split does not reduce gini, continue
      if (g >= min_gini) continue;
      min_gini = g;
      split_it = It;
      split_feature_idx = feature_idx;
      split_threshold = ((double)feature_val_left + feature_val_right) / 2.0;
      // The mean of adjacent floats may round to the left value, which must
      // compare less than the threshold.
      if (split_threshold <= feature_val_left)
        split_threshold = feature_val_right;
''', '''      if (g < min_gini) {
        min_gini = g;
        split_it = It;
        split_feature_idx = feature_idx;
        const float mean = ((double)feature_val_left + feature_val_right) / 2.0;
        split_threshold = mean <= feature_val_left ? feature_val_right : mean;
      }
'''))
rf("tree-build-leaf",
   (I, '''  // Return if max_depth reached.
  if (depth >= max_depth) return node;

  // Return if there is only one sample.
  if (Begin == End) return node;

  // Return if the gini is 0 (samples of the same class).
  if (gini_score <= 0.0f) return node;
''', '''  const bool leaf = depth >= max_depth || Begin == End || gini_score <= 0.0f;
  if (leaf) return node;
'''), (I, '''  std::tie(min_gini, split_it, split_feature_idx, threshold) =
      split(Begin, End);
  assert(split_it != End);
''', '''  const auto best = split(Begin, End);
  min_gini = std::get<0>(best);
  split_it = std::get<1>(best);
  split_feature_idx = std::get<2>(best);
  threshold = std::get<3>(best);
  assert(split_it != End);
'''))
rf("tree-node-class",
   (I, '''  int idx = std::distance(counts.begin(),
                          std::max_element(counts.begin(), counts.end()));
  predicted_class = *std::next(DT.classes.begin(), idx);
''', '''  const auto most = std::max_element(counts.begin(), counts.end());
  auto cls = DT.classes.begin();
  std::advance(cls, most - counts.begin());
  predicted_class = *cls;
'''))
rf("tree-train-shared",
   (I, '''  // Assumes all feature vectors are equal.
  num_features = features.begin()->size();
  classes.insert(responses.begin(), responses.end());
  for (size_t i = 0, end = features.size(); i < end; ++i)
    data.emplace_back(std::move(features[i]), responses[i]);

  root = build_tree(data.begin(),
                    data.end(),
                    /* max_depth */ max_depth,
                    /* depth */ 0);

#ifdef ENABLE_JIT_DTREE
  compile_and_link_jit_evaluate_function();
#endif
}
''', '''  train(features, responses);
}
'''), (I, '''  for (size_t i = 0, end = features.size(); i < end; ++i)
    data.emplace_back(std::move(features[i]), responses[i]);
''', '''  data.reserve(features.size());
  for (size_t i = 0; i < features.size(); ++i)
    data.push_back(std::make_pair(features[i], responses[i]));
'''))
rf("tree-output-node",
   (I, '''  for (int i = 0; i < classes.size(); ++i) {
    auto it = std::next(classes.begin(), i);
    int cls = *it;
    outfmt << cls & ": " & tree.count_per_class[i] & ",\\n";
  }
''', '''  size_t i = 0;
  for (int cls : classes) {
    outfmt << cls & ": " & tree.count_per_class[i] & ",\\n";
    ++i;
  }
'''))
rf("tree-parse-node",
   (I, '''  if (predicted_class < 0 || predicted_class >= (int)num_classes)
    throw std::runtime_error("Invalid predicted_class " +
                             std::to_string(predicted_class));
''', '''  const bool known = 0 <= predicted_class && predicted_class < (int)num_classes;
  if (!known)
    throw std::runtime_error("Invalid predicted_class " +
                             std::to_string(predicted_class));
'''))
rf("tree-dtor",
   (I, '''  std::string function_name = jit_function_name(unique_id);
  std::string shared_library_name =
      std::string("/tmp/") + function_name + std::string(".so");
  std::remove(shared_library_name.c_str());

  for (Node *node : tree_nodes)
    delete node;
''', '''  for (size_t i = 0; i < tree_nodes.size(); ++i)
    delete tree_nodes[i];
  tree_nodes.clear();

  const std::string library = "/tmp/" + jit_function_name(unique_id) + ".so";
  std::remove(library.c_str());
'''))

G = M + "impl/RandomForestImpl.cpp"
SAMPLE = '''    // Random pick with replacement of features, responses
    for (size_t i = 0, end = features.size(); i < end; ++i) {
      int sample_idx = uniform_dist(generator);
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx]);
    }
'''
rf("forest-predict-max",
   (G, '''  int class_idx = 0;
  for (size_t i = 1; i < num_classes; ++i)
    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;

  return class_idx;
''', '''  return std::max_element(count_per_class, count_per_class + num_classes) - count_per_class;
'''), (G, "#include <vector>", "#include <vector>\n#include <algorithm>"))
rf("forest-predict-vector",
   (G, '''  int count_per_class[num_classes];
  for (size_t i = 0; i < num_classes; ++i)
    count_per_class[i] = 0;

  for (auto &dtree : rfc) {
    int dtree_prediction = dtree->predict(features);
    assert(0 <= dtree_prediction && dtree_prediction < num_classes);
    count_per_class[dtree_prediction]++;
  }

  int class_idx = 0;
  for (size_t i = 1; i < num_classes; ++i)
    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;
''', '''  std::vector<int> votes(num_classes, 0);
  for (const auto &dtree : rfc) {
    const int vote = dtree->predict(features);
    assert(0 <= vote && vote < num_classes);
    votes[vote] += 1;
  }

  int class_idx = 0;
  for (int i = 1; i < num_classes; ++i) {
    if (votes[i] <= votes[class_idx]) continue;
    class_idx = i;
  }
'''))
rf("forest-train-shared",
   (G, '''    : num_classes(num_classes), num_trees(num_trees), max_depth(max_depth)
{
  // Uniform random generator using Mersenne-Twister for randomness.
  std::mt19937 generator;
  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);

  for (unsigned i = 0; i < num_trees; i++) {
    std::vector<std::vector<float>> sample_features;
    std::vector<int> sample_responses;
''' + SAMPLE + '''
    rfc.push_back(std::make_unique<DecisionTreeImpl>(
        num_classes, sample_features, sample_responses, max_depth));
  }
}
''', '''    : num_classes(num_classes), num_trees(num_trees), max_depth(max_depth)
{
  train(features, responses);
}
'''))
rf("forest-train-while",
   (G, SAMPLE, '''    sample_features.reserve(features.size());
    sample_responses.reserve(features.size());
    while (sample_features.size() < features.size()) {
      const size_t pick = uniform_dist(generator);
      sample_features.emplace_back(features[pick]);
      sample_responses.emplace_back(responses[pick]);
    }
'''))
rf("forest-parse-emplace",
   (G, '''    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
    parser.getNextToken();
    parser.parseExpected(",");
''', '''    auto dtree = std::make_unique<DecisionTreeImpl>(num_classes, ifs);
    parser.getNextToken();
    parser.parseExpected(",");
    rfc.push_back(std::move(dtree));
'''))

TSY = "src/timers/TimerSync.cpp"
rf("timer-now-helper",
   (TSY, '''void TimerSync::start()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;
}

void TimerSync::stop()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;
}
''', '''static double now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

void TimerSync::start() { exec_time_begin = now(); }

void TimerSync::stop() { exec_time_end = now(); }
'''))
rf("timer-cuda-flow",
   ("src/timers/TimerCudaAsync.cpp", '''  float cudaTime;

  static cudaError_t code;
  if ((code = cudaEventElapsedTime(&cudaTime, event_start, event_stop)) !=
      cudaSuccess) {
    if (code == cudaErrorNotReady) return false;

    cudaAssert(code, __FILE__, __LINE__);
  }

  // Convert from ms to s
  metric = cudaTime / 1000.0;
  return true;
''', '''  float ms;
  const cudaError_t code = cudaEventElapsedTime(&ms, event_start, event_stop);
  if (code == cudaErrorNotReady) return false;
  cudaErrchk(code);

  // Convert from ms to s
  metric = ms / 1000.0;
  return true;
'''))


# ------------------------------------------------------------ policy network
P = M + "PolicyNet.cpp"

rf("net-forward-acc",
   (P, '''        for (int k = 0; k < inputSize; ++k) {
          outputs[i * outputSize + j] +=
              weights[j * inputSize + k] * inputs[i * inputSize + k];
        }

        outputs[i * outputSize + j] += bias[j];
''', '''        double acc = 0.;
        for (int k = 0; k < inputSize; ++k)
          acc += weights[j * inputSize + k] * inputs[i * inputSize + k];
        outputs[i * outputSize + j] = acc + bias[j];
'''))

rf("net-forward-fill",
   (P, '''      for (int i = 0; i < batchSize * outputSize; ++i) {
        outputs[i] = 0;
      }
''', '''      std::fill(outputs, outputs + batchSize * outputSize, 0.);
'''))

rf("net-forward-bias-first",
   (P, '''        for (int k = 0; k < inputSize; ++k) {
          outputs[i * outputSize + j] +=
              weights[j * inputSize + k] * inputs[i * inputSize + k];
        }

        outputs[i * outputSize + j] += bias[j];
''', '''        double *out = &outputs[i * outputSize + j];
        for (int k = 0; k < inputSize; ++k) {
          *out += weights[j * inputSize + k] * inputs[i * inputSize + k];
        }
        *out += bias[j];
'''))

rf("net-backward-zero-helper",
   (P, '''    // Zero all gradient arrays.
    for (int i = 0; i < batchSize * inputSize; ++i) {
      inputGrad[i] = 0;
    }

    for (int i = 0; i < outputSize * inputSize; ++i) {
      weights_grad[i] = 0;
    }

    for (int i = 0; i < outputSize; ++i) {
      bias_grad[i] = 0;
    }
''', '''    zero(inputGrad, batchSize * inputSize);
    zero(weights_grad, outputSize * inputSize);
    zero(bias_grad, outputSize);
'''), (P, '''  double *backward(double *inputs, double *chainRuleGrad, int batchSize)
  {
''', '''  static void zero(double *data, int count)
  {
    for (int i = 0; i < count; ++i)
      data[i] = 0;
  }

  double *backward(double *inputs, double *chainRuleGrad, int batchSize)
  {
'''))

rf("net-backward-grad-local",
   (P, '''      for (int j = 0; j < outputSize; ++j) {
        for (int k = 0; k < inputSize; ++k) {
          weights_grad[j * inputSize + k] +=
              chainRuleGrad[i * outputSize + j] * inputs[i * inputSize + k];
          inputGrad[i * inputSize + k] +=
              chainRuleGrad[i * outputSize + j] * weights[j * inputSize + k];
        }

        bias_grad[j] += chainRuleGrad[i * outputSize + j];
      }
''', '''      for (int j = 0; j < outputSize; ++j) {
        const double grad = chainRuleGrad[i * outputSize + j];
        bias_grad[j] += grad;
        for (int k = 0; k < inputSize; ++k) {
          weights_grad[j * inputSize + k] += grad * inputs[i * inputSize + k];
          inputGrad[i * inputSize + k] += weights[j * inputSize + k] * grad;
        }
      }
'''))

rf("net-backward-memset",
   (P, '''    for (int i = 0; i < outputSize; ++i) {
      bias_grad[i] = 0;
    }
''', '''    std::fill(bias_grad, bias_grad + outputSize, 0.0);
'''))

rf("net-adam-helper",
   (P, '''        // Update the moving averages of the first and second moments of the
        // gradient.
        weights_m[index] =
            beta1 * weights_m[index] + (1 - beta1) * weights_grad[index];
        weights_v[index] = beta2 * weights_v[index] +
                           (1 - beta2) * std::pow(weights_grad[index], 2);

        // Compute the unbiased moving averages.
        double mHat = weights_m[index] / (1 - std::pow(beta1, stepNum));
        double vHat = weights_v[index] / (1 - std::pow(beta2, stepNum));

        // Update the weights.
        weights[index] += learnRate * mHat / (std::sqrt(vHat) + epsilon);
''', '''        adam(weights[index], weights_m[index], weights_v[index],
             weights_grad[index], learnRate, beta1, beta2, epsilon);
'''), (P, '''      // Update the moving averages of the first and second moments of the
      // gradient.
      bias_m[i] = beta1 * bias_m[i] + (1 - beta1) * bias_grad[i];
      bias_v[i] = beta2 * bias_v[i] + (1 - beta2) * std::pow(bias_grad[i], 2);

      // Compute the unbiased moving averages.
      double mHat = bias_m[i] / (1 - std::pow(beta1, stepNum));
      double vHat = bias_v[i] / (1 - std::pow(beta2, stepNum));

      // Update the weights.
      bias[i] += learnRate * mHat / (std::sqrt(vHat) + epsilon);
''', '''      adam(bias[i], bias_m[i], bias_v[i], bias_grad[i], learnRate, beta1,
           beta2, epsilon);
'''), (P, '''  int inputSize;
  int outputSize;

  double *weights;
''', '''  void adam(double &param, double &m, double &v, double grad,
            double learnRate, double beta1, double beta2, double epsilon)
  {
    m = beta1 * m + (1 - beta1) * grad;
    v = beta2 * v + (1 - beta2) * std::pow(grad, 2);
    double mHat = m / (1 - std::pow(beta1, stepNum));
    double vHat = v / (1 - std::pow(beta2, stepNum));
    param += learnRate * mHat / (std::sqrt(vHat) + epsilon);
  }

  int inputSize;
  int outputSize;

  double *weights;
'''))

rf("net-adam-hoist",
   (P, '''    stepNum++;

    // Update each''', '''    ++stepNum;
    const double c1 = 1 - std::pow(beta1, stepNum);
    const double c2 = 1 - std::pow(beta2, stepNum);

    // Update each'''),
   (P, '''        double mHat = weights_m[index] / (1 - std::pow(beta1, stepNum));
        double vHat = weights_v[index] / (1 - std::pow(beta2, stepNum));
''', '''        double mHat = weights_m[index] / c1;
        double vHat = weights_v[index] / c2;
'''), (P, '''      double mHat = bias_m[i] / (1 - std::pow(beta1, stepNum));
      double vHat = bias_v[i] / (1 - std::pow(beta2, stepNum));
''', '''      double mHat = bias_m[i] / c1;
      double vHat = bias_v[i] / c2;
'''))

rf("net-adam-flat",
   (P, '''    for (int i = 0; i < outputSize; ++i) {
      for (int j = 0; j < inputSize; ++j) {
        int index = i * inputSize + j;

        // Update the moving''', '''    {
      for (int index = 0; index < outputSize * inputSize; ++index) {
        // Update the moving'''),
   (P, '''        weights[index] += learnRate * mHat / (std::sqrt(vHat) + epsilon);
      }

''', '''        weights[index] += learnRate * mHat / (std::sqrt(vHat) + epsilon);
      }
    }
    for (int i = 0; i < outputSize; ++i) {
'''))

rf("net-relu-ternary",
   (P, "      outputs[i] = std::max(inputs[i], 0.);\n", "      outputs[i] = inputs[i] > 0. ? inputs[i] : 0.;\n"),
   (P, "      inputGrad[i] = chainRuleGrad[i] * std::signbit(-inputs[i]);\n",
    "      inputGrad[i] = chainRuleGrad[i] * (std::signbit(-inputs[i]) ? 1 : 0);\n"))

rf("net-relu-count",
   (P, '''    // Compute ReLU activation.
    for (int i = 0; i < batchSize * outputSize; ++i) {
''', '''    // Compute ReLU activation.
    const int total = outputSize * batchSize;
    for (int i = 0; i != total; i++) {
'''))

rf("net-softmax-one-loop",
   (P, '''    double alpha[batchSize];
    for (int i = 0; i < batchSize; ++i) {
      alpha[i] = inputs[i * outputSize];
      for (int j = 0; j < outputSize; ++j) {
        alpha[i] = std::max(alpha[i], inputs[i * outputSize + j]);
      }
    }

''', ''), (P, '''      double sum = 0;
      for (int j = 0; j < outputSize; ++j) {
        int index = i * outputSize + j;
        outputs[index] = std::exp(
            inputs[index] -
            alpha[i]);  // Note: subtract alpha for numerical stability.
        sum += outputs[index];
      }
''', '''      double alpha = inputs[i * outputSize];
      for (int j = 0; j < outputSize; ++j) {
        alpha = std::max(alpha, inputs[i * outputSize + j]);
      }
      double sum = 0;
      for (int j = 0; j < outputSize; ++j) {
        int index = i * outputSize + j;
        outputs[index] = std::exp(inputs[index] - alpha);
        sum += outputs[index];
      }
'''))

rf("net-softmax-maxelement",
   (P, '''      alpha[i] = inputs[i * outputSize];
      for (int j = 0; j < outputSize; ++j) {
        alpha[i] = std::max(alpha[i], inputs[i * outputSize + j]);
      }
''', '''      alpha[i] = *std::max_element(inputs + i * outputSize,
                                   inputs + (i + 1) * outputSize);
'''), (P, "#include <bitset>\n", "#include <algorithm>\n#include <bitset>\n"))

rf("net-softmax-vector",
   (P, "    double alpha[batchSize];\n", "    std::vector<double> alpha(batchSize);\n"))

rf("net-softmax-row",
   (P, '''      double sum = 0;
      for (int j = 0; j < outputSize; ++j) {
        int index = i * outputSize + j;
        outputs[index] = std::exp(
            inputs[index] -
            alpha[i]);  // Note: subtract alpha for numerical stability.
        sum += outputs[index];
      }
      for (int j = 0; j < outputSize; ++j) {
        outputs[i * outputSize + j] /= sum;
      }
''', '''      double sum = 0;
      const double *in = inputs + i * outputSize;
      double *out = outputs + i * outputSize;
      for (int j = 0; j < outputSize; ++j) {
        out[j] = std::exp(in[j] - alpha[i]);
        sum += out[j];
      }
      for (int j = 0; j < outputSize; ++j)
        out[j] = out[j] / sum;
'''))

rf("net-lossgrad-if",
   (P, '''        inputGrad[index] = -reward[i] * actionProbs[index] / batchSize;
      }
      inputGrad[i * inputSize + action[i]] += reward[i] / batchSize;
''', '''        inputGrad[index] = -reward[i] * actionProbs[index] / batchSize;
        if (j == action[i]) inputGrad[index] += reward[i] / batchSize;
      }
'''))

rf("net-lossgrad-scale",
   (P, '''      for (int j = 0; j < inputSize; ++j) {
        int index = i * inputSize + j;
        inputGrad[index] = -reward[i] * actionProbs[index] / batchSize;
      }
      inputGrad[i * inputSize + action[i]] += reward[i] / batchSize;
''', '''      const double r = reward[i];
      const int row = i * inputSize;
      for (int j = 0; j < inputSize; ++j)
        inputGrad[row + j] = -r * actionProbs[row + j] / batchSize;
      inputGrad[row + action[i]] += r / batchSize;
'''))

rf("net-buffers-helper",
   (P, '''    if (batchSize * outputSize > maxArraySize) {
      maxArraySize = batchSize * outputSize;

      // Delete old arrays if they exist.
      if (outputs != NULL) {
        delete[] outputs;
        delete[] inputGrad;
      }

      outputs = new double[maxArraySize];
      inputGrad = new double[maxArraySize];
    }

    // Compute ReLU activation.
''', '''    reserve(batchSize * outputSize);

    // Compute ReLU activation.
'''), (P, '''private:
  double *outputs = NULL;
  double *inputGrad;
  int maxArraySize = 0;
};

class Softmax
''', '''private:
  void reserve(int size)
  {
    if (size <= maxArraySize) return;
    if (outputs != nullptr) {
      delete[] outputs;
      delete[] inputGrad;
    }
    outputs = new double[size];
    inputGrad = new double[size];
    maxArraySize = size;
  }

  double *outputs = NULL;
  double *inputGrad;
  int maxArraySize = 0;
};

class Softmax
'''))

rf("net-buffers-null",
   (P, '''      // Delete the old arrays if they exist.
      if (outputs != NULL) {
        delete[] outputs;
        delete[] inputGrad;
      }

      // Allocate''', '''      delete[] outputs;
      delete[] inputGrad;

      // Allocate'''),
   (P, '''    if (outputs != NULL) {
      delete[] outputs;
      delete[] inputGrad;
    }
  }

  double *forward(double *inputs, int batchSize)
''', '''    delete[] outputs;
    delete[] inputGrad;
  }

  double *forward(double *inputs, int batchSize)
'''), (P, '''  double *outputs = NULL;
  double *inputGrad;
  int maxBatchSize = 0;
''', '''  double *outputs = nullptr;
  double *inputGrad = nullptr;
  int maxBatchSize = 0;
'''))

rf("net-step-forward",
   (P, '''    auto out3 = layer3.forward(aout2, batchSize);
    auto aout3 = softmax.forward(out3, batchSize, outputSize);

    return aout3;
''', '''    return softmax.forward(layer3.forward(aout2, batchSize), batchSize, outputSize);
'''), (P, '''    // Update the parameters of each layer.
    layer1.step(learnRate, beta1, beta2);
    layer2.step(learnRate, beta1, beta2);
    layer3.step(learnRate, beta1, beta2);
''', '''    for (FCLayer *layer : {&layer1, &layer2, &layer3})
      layer->step(learnRate, beta1, beta2);
'''))

rf("net-train-encode-helper",
   (P, '''void PolicyNet::train(Apollo::Dataset &dataset)
{
''', '''static std::vector<float> encode(const std::vector<float> &features)
{
  std::vector<float> out;
  for (auto &f : features) {
    std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)f);
    for (int i = 0; i < bits.size(); i++)
      out.push_back(bits[i]);
  }
  return out;
}

void PolicyNet::train(Apollo::Dataset &dataset)
{
'''), (P, '''    std::vector<float> features_bits;
    for (auto &f : features) {
      // XXX: assumes features can be casted to 64-bit unsigned integers.
      std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)f);
      for (int i = 0; i < bits.size(); i++)
        features_bits.push_back(bits[i]);
    }
    states.push_back(std::move(features_bits));
''', '''    states.push_back(encode(features));
'''))

rf("net-train-structured",
   (P, '''    auto &features = std::get<0>(measure);
    auto policy = std::get<1>(measure);
    auto metric = std::get<2>(measure);

    std::vector<float> features_bits;
''', '''    const auto &features = std::get<0>(measure);
    const int policy = std::get<1>(measure);
    const double metric = std::get<2>(measure);

    std::vector<float> features_bits;
    features_bits.reserve(64 * features.size());
'''))

rf("net-trainnet-vectors",
   (P, '''  double *trainStates = new double[batchSize * inputSize];
  int *trainActions = new int[batchSize];
  double *trainRewards = new double[batchSize];
''', '''  std::vector<double> trainStates(batchSize * inputSize);
  std::vector<int> trainActions(batchSize);
  std::vector<double> trainRewards(batchSize);
'''), (P, '''  net->trainStep(trainStates, trainActions, trainRewards, batchSize);

  // Delete the arrays used for training.
  delete[] trainStates;
  delete[] trainActions;
  delete[] trainRewards;
''', '''  net->trainStep(trainStates.data(), trainActions.data(), trainRewards.data(),
                 batchSize);
'''))

rf("net-trainnet-rangesum",
   (P, '''  double batchRewardAvg = std::accumulate(rewards.begin(), rewards.end(), 0.0);
  batchRewardAvg /= batchSize;
''', '''  double batchRewardSum = 0.0;
  for (double r : rewards)
    batchRewardSum += r;
  const double batchRewardAvg = batchRewardSum / batchSize;
'''), (P, '''  double baseline = rewardMovingAvg / (1 - std::pow(beta, ++trainCount));
''', '''  trainCount++;
  double baseline = rewardMovingAvg / (1 - std::pow(beta, trainCount));
'''))

rf("net-trainnet-empty",
   (P, '''  int batchSize = states.size();
  if (batchSize < 1) return;  // Don't train if there is no data to train on.
''', '''  if (states.empty()) return;
  const int batchSize = states.size();
'''))

rf("net-getindex-baseline-helper",
   (P, '''  double baseline =
      (trainCount > 0 ? rewardMovingAvg / (1 - std::pow(beta, trainCount))
                      : 0.0);
''', '''  double baseline = 0.0;
  if (trainCount > 0) baseline = rewardMovingAvg / (1 - std::pow(beta, trainCount));
'''), (P, '''  auto it = actionProbabilityMap.find(key);
  if (it != actionProbabilityMap.end()) {
    // Use the previously evaluated action probabilities.
    actionProbs = it->second;
  } else {
''', '''  if (actionProbabilityMap.count(key)) {
    actionProbs = actionProbabilityMap[key];
  } else {
'''))

rf("net-getindex-vector",
   (P, "    double *evalState = new double[inputSize];\n", "    std::vector<double> evalState(inputSize);\n"),
   (P, "net->forward(evalState, 1);", "net->forward(evalState.data(), 1);"),
   (P, '''    // Delete the state array.
    delete[] evalState;

''', ''),
   (P, '''    actionProbs = std::vector<double>(numPolicies);
    for (int i = 0; i < numPolicies; ++i)
      actionProbs[i] = evalActionProbs[i];
''', '''    actionProbs.assign(evalActionProbs, evalActionProbs + numPolicies);
'''))

rf("net-getindex-cacheref",
   (P, '''    actionProbabilityMap.insert(std::make_pair(key, actionProbs));
''', '''    actionProbabilityMap[key] = actionProbs;
'''), (P, '''  int policyIndex = d(gen);

  return policyIndex;
''', '''  return d(gen);
'''))

rf("net-getindex-bits-order",
   (P, '''      size_t index = i * 64;
      std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)features[i]);
      for (int j = 0; j < 64; ++j) {
        evalState[index + j] = bits[j];
      }
''', '''      bits = (uint64_t)features[i];
      for (int j = 0; j < 64; ++j) {
        evalState[64 * i + j] = bits[j] ? 1. : 0.;
      }
'''))

rf("net-store-lambda",
   (P, '''  f.write((char *)net->layer1.weights,
          sizeof(double) * net->layer1.inputSize * net->layer1.outputSize);
  f.write((char *)net->layer1.bias, sizeof(double) * net->layer1.outputSize);
  f.write((char *)net->layer2.weights,
          sizeof(double) * net->layer2.inputSize * net->layer2.outputSize);
  f.write((char *)net->layer2.bias, sizeof(double) * net->layer2.outputSize);
  f.write((char *)net->layer3.weights,
          sizeof(double) * net->layer3.inputSize * net->layer3.outputSize);
  f.write((char *)net->layer3.bias, sizeof(double) * net->layer3.outputSize);
''', '''  auto write_layer = [&f](FCLayer &layer) {
    f.write((char *)layer.weights,
            sizeof(double) * layer.inputSize * layer.outputSize);
    f.write((char *)layer.bias, sizeof(double) * layer.outputSize);
  };
  write_layer(net->layer1);
  write_layer(net->layer2);
  write_layer(net->layer3);
'''))

rf("net-load-helper",
   (P, '''  f.read((char *)net->layer1.weights,
         sizeof(double) * net->layer1.inputSize * net->layer1.outputSize);
  f.read((char *)net->layer1.bias, sizeof(double) * net->layer1.outputSize);
  f.read((char *)net->layer2.weights,
         sizeof(double) * net->layer2.inputSize * net->layer2.outputSize);
  f.read((char *)net->layer2.bias, sizeof(double) * net->layer2.outputSize);
  f.read((char *)net->layer3.weights,
         sizeof(double) * net->layer3.inputSize * net->layer3.outputSize);
  f.read((char *)net->layer3.bias, sizeof(double) * net->layer3.outputSize);
''', '''  for (FCLayer *layer : {&net->layer1, &net->layer2, &net->layer3})
    read_layer(f, *layer);
'''), (P, '''void PolicyNet::load(const std::string &filename)
{
''', '''static void read_layer(std::ifstream &f, FCLayer &layer)
{
  f.read(reinterpret_cast<char *>(layer.weights),
         sizeof(double) * layer.inputSize * layer.outputSize);
  f.read(reinterpret_cast<char *>(layer.bias), sizeof(double) * layer.outputSize);
}

void PolicyNet::load(const std::string &filename)
{
'''))

# ---------------------------------------------------------------- second round
DT_, RFI, PN2, PR = "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp", "src/helpers/Parser.cpp"

rf("b-region-policy-trace-helper",
   (R, "int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n{", '''static std::string policyTrace(Apollo::Region &region,
                               Apollo::RegionContext &context,
                               int rank,
                               int choice)
{
  std::stringstream out;
  out << "Rank " << rank << " region " << region.name << " model "
      << region.model->name << " features [ ";
  for (float f : context.features)
    out << static_cast<int>(f) << ", ";
  out << "] policy " << choice << std::endl;
  return out.str();
}

int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)
{'''),
   (R, '''    std::stringstream trace_out;
    int rank;
    rank = apollo->mpiRank;
    trace_out << "Rank " << rank << " region " << name << " model "
              << model->name << " features [ ";
    for (auto &f : context->features)
      trace_out << (int)f << ", ";
    trace_out << "] policy " << choice << std::endl;
    std::cout << trace_out.str();
    std::ofstream fout("rank-" + std::to_string(rank) + "-policies.txt",
                       std::ofstream::app);
    fout << trace_out.str();
    fout.close();''', '''    const int rank = apollo->mpiRank;
    const std::string line = policyTrace(*this, *context, rank, choice);
    std::cout << line;
    std::ofstream fout("rank-" + std::to_string(rank) + "-policies.txt",
                       std::ios::app);
    fout << line;'''))

rf("b-region-policy-assign-first",
   (R, '''  int choice = model->getIndex(context->features);

  if (Config::APOLLO_TRACE_POLICY) {''', '''  const int choice = context->policy = model->getIndex(context->features);

  if (Config::APOLLO_TRACE_POLICY) {'''),
   (R, "  context->policy = choice;\n  return choice;", "  return choice;"))

rf("b-region-parse-sstream",
   (R, '''  std::string model_params_str = model_info.substr(pos + 1);
  do {
    pos = model_params_str.find(",");
    std::string keyval_str = model_params_str.substr(0, pos);

    size_t kv_pos = keyval_str.find("=");
    if (std::string::npos == kv_pos) {
      model_params.emplace(keyval_str, "");
    } else {
      std::string key = keyval_str.substr(0, kv_pos);
      std::string val = keyval_str.substr(kv_pos + 1);
      model_params.emplace(key, val);
    }

    model_params_str = model_params_str.substr(pos + 1);

  } while (std::string::npos != pos);
''', '''  std::string rest = model_info.substr(pos + 1);
  for (;;) {
    const size_t comma = rest.find(',');
    const std::string item = rest.substr(0, comma);
    const size_t eq = item.find('=');
    const bool has_value = eq != std::string::npos;
    model_params.emplace(item.substr(0, eq),
                         has_value ? item.substr(eq + 1) : std::string());
    if (comma == std::string::npos) break;
    rest = rest.substr(comma + 1);
  }
'''))

rf("b-region-parse-helper",
   (R, "void Apollo::Region::parsePolicyModel(", '''static void addParam(std::unordered_map<std::string, std::string> &params,
                     const std::string &keyval)
{
  const size_t eq = keyval.find("=");
  if (eq == std::string::npos) {
    params.emplace(keyval, "");
    return;
  }
  params.emplace(keyval.substr(0, eq), keyval.substr(eq + 1));
}

void Apollo::Region::parsePolicyModel('''),
   (R, '''    std::string keyval_str = model_params_str.substr(0, pos);

    size_t kv_pos = keyval_str.find("=");
    if (std::string::npos == kv_pos) {
      model_params.emplace(keyval_str, "");
    } else {
      std::string key = keyval_str.substr(0, kv_pos);
      std::string val = keyval_str.substr(kv_pos + 1);
      model_params.emplace(key, val);
    }
''', '''    addParam(model_params, model_params_str.substr(0, pos));
'''))

rf("b-region-validate-table",
   (R, '''  if (model_name == "Static") {
    //  "(policy)=([0-9]+)"
    for (auto &entry : model_params)
      if (entry.first != "policy")
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy Static");

    return;
  }
''', '''  if (model_name == "Static") {
    //  "(policy)=([0-9]+)"
    for (auto it = model_params.cbegin(); it != model_params.cend(); ++it) {
      const std::string &key = it->first;
      if (key == "policy") continue;
      fatal_error("Unknown param key \\"" + key + "\\" for policy Static");
    }
    return;
  }
'''))

rf("b-region-validate-anyof",
   (R, '''    for (auto &entry : model_params)
      if (entry.first != "max_depth" && entry.first != "explore" &&
          entry.first != "load" && entry.first != "load-dataset")
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy DecisionTree");
''', '''    for (const auto &entry : model_params) {
      const bool known = entry.first == "max_depth" ||
                         entry.first == "explore" || entry.first == "load" ||
                         entry.first == "load-dataset";
      if (!known)
        fatal_error("Unknown param key \\"" + entry.first +
                    "\\" for policy DecisionTree");
    }
'''))

rf("b-region-model-file-helper",
   (R, "Apollo::Region::Region(const int num_features,", '''static std::string latestModelFile(const std::string &model_name,
                                   int rank,
                                   const char *name)
{
  std::stringstream path;
  path << Config::APOLLO_OUTPUT_DIR << "/" << Config::APOLLO_MODELS_DIR << "/"
       << model_name << "-latest-rank-" << rank << "-" << name << ".yaml";
  return path.str();
}

Apollo::Region::Region(const int num_features,'''),
   (R, '''    std::string model_file;
    if (model_params["load"].empty())
      model_file = Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR +
                   "/" + model_name + "-latest-rank-" +
                   std::to_string(apollo->mpiRank) + "-" + std::string(name) +
                   ".yaml";
    else
      model_file = model_params["load"];

    if (fileExists(model_file)) {
      // std::cout << "Model Load " << model_file << std::endl;
      model->load(model_file);
    } else {
      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();
    }
''', '''    const std::string &given = model_params["load"];
    const std::string model_file =
        given.empty() ? latestModelFile(model_name, apollo->mpiRank, name)
                      : given;

    if (!fileExists(model_file)) {
      std::cerr << "ERROR: could not load model file " << model_file
                << ", abort" << std::endl;
      abort();
    }
    model->load(model_file);
'''))

rf("b-region-staticregion-at",
   (R, '''    std::string policy = it->second;
    model_params.clear();
    model_params.emplace("policy", policy);
    model_info = "Static,policy=" + policy;''', '''    const std::string policy(it->second);
    model_params = {{"policy", policy}};
    model_info = "Static,policy=";
    model_info += policy;'''))

rf("b-region-end-else",
   (R, '''  if (context == &sync_context) {
    double metric;
    context->timer->isDone(metric);
    collectContext(context, metric);
    return;
  }
  pending_contexts.push_back(context);
  collectPendingContexts();
}''', '''  const bool is_sync = (context == &sync_context);
  if (!is_sync) {
    pending_contexts.push_back(context);
    collectPendingContexts();
  } else {
    double elapsed = 0.0;
    context->timer->isDone(elapsed);
    collectContext(context, elapsed);
  }
}'''))

rf("b-region-collect-erase-loop",
   (R, '''  auto isDone = [this](Apollo::RegionContext *context) {
    if (!context->timer)
      throw std::runtime_error("No timer has been set for the context");
    double metric;
    if (context->timer->isDone(metric)) {
      collectContext(context, metric);
      return true;
    }

    return false;
  };

  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());''', '''  const auto collectIfDone = [this](Apollo::RegionContext *context) -> bool {
    if (context->timer == nullptr)
      throw std::runtime_error("No timer has been set for the context");
    double metric;
    const bool done = context->timer->isDone(metric);
    if (done) collectContext(context, metric);
    return done;
  };

  const auto keep_end = std::remove_if(pending_contexts.begin(),
                                       pending_contexts.end(),
                                       collectIfDone);
  pending_contexts.erase(keep_end, pending_contexts.end());'''))

rf("b-region-autotrain-returns",
   (R, '''  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
      (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {
    apollo->train(apollo->region_executions,
                  /* doCollectPendingContexts */ false);
  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD &&
             (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {
    train(idx, /* doCollectPendingContexts */ false);
  } else if (0 < min_training_data && min_training_data <= dataset.size())
    train(idx, /* doCollectPendingContexts */ false);''', '''  const int global_period = Config::APOLLO_GLOBAL_TRAIN_PERIOD;
  if (global_period != 0 && apollo->region_executions % global_period == 0) {
    apollo->train(apollo->region_executions, false);
    return;
  }

  const int region_period = Config::APOLLO_PER_REGION_TRAIN_PERIOD;
  const bool period_due = region_period != 0 && idx % region_period == 0;
  const bool enough_data =
      min_training_data > 0 && dataset.size() >= min_training_data;
  if (period_due || enough_data) train(idx, false);'''))

rf("b-region-trace-one-statement",
   (R, '''    trace_file << apollo->mpiRank << " ";
    trace_file << model->name << " ";
    trace_file << this->name << " ";
    trace_file << context->idx << " ";
    for (auto &f : context->features)
      trace_file << f << " ";
    trace_file << context->policy << " ";
    trace_file << metric << "\\n";''', '''    trace_file << apollo->mpiRank << " " << model->name << " " << name << " "
               << context->idx << " ";
    for (size_t i = 0; i < context->features.size(); ++i)
      trace_file << context->features[i] << " ";
    trace_file << context->policy << " " << metric << "\\n";'''))

rf("b-region-begin-features-first",
   (R, '''  current_context = context;
  context->idx = this->idx;
  this->idx++;

  context->timer->start();
''', '''  context->idx = idx++;
  current_context = context;
  context->timer->start();
'''))

rf("b-apollo-exec-info-named",
   (A, '''    for (auto it : regions) {
      Region *r = it.second;
      file_out << r->name << ", " << r->idx << "\\n";
    }
    file_out.close();
  }
  for (auto &it : regions) {
    Region *r = it.second;
    delete r;
  }
''', '''    for (const auto &entry : regions)
      file_out << entry.second->name << ", " << entry.second->idx << '\\n';
    file_out.close();
  }
  for (auto it = regions.begin(); it != regions.end(); ++it)
    delete it->second;
'''))

rf("b-apollo-pack-fields-order",
   (A, '''  int size = 0, measure_size = 0;
  // rank
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // num features
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // feature vector
  MPI_Pack_size(num_features, MPI_FLOAT, comm, &size);
  measure_size += size;
  // policy
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // region name
  MPI_Pack_size(64, MPI_CHAR, comm, &size);
  measure_size += size;
  // metric
  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);
  measure_size += size;

  return measure_size;''', '''  int int_size = 0, features_size = 0, name_size = 0, metric_size = 0;
  MPI_Pack_size(1, MPI_INT, comm, &int_size);
  MPI_Pack_size(num_features, MPI_FLOAT, comm, &features_size);
  MPI_Pack_size(64, MPI_CHAR, comm, &name_size);
  MPI_Pack_size(1, MPI_DOUBLE, comm, &metric_size);
  // rank, number of features, features, policy, region name, metric
  return int_size + int_size + features_size + int_size + name_size +
         metric_size;'''))

rf("b-apollo-gather-helper-insert",
   (A, '''    // Do not re-insert this rank's measurements
    if (rank == mpiRank) continue;

    // Find local region to reduce collective training data
    // TODO keep unseen regions to boostrap their models on execution?
    auto reg_iter = regions.find(region_name);
    if (reg_iter != regions.end()) {
      Region *reg = reg_iter->second;
      reg->dataset.insert(features, policy, metric);
    }''', '''    // Reduce the data of other ranks into the local region, if there is one.
    const bool own = (rank == mpiRank);
    if (!own) {
      const auto found = regions.find(std::string(region_name));
      if (found == regions.end()) continue;
      found->second->dataset.insert(features, policy, metric);
    }'''))

rf("b-apollo-gather-resize",
   (A, '''    for (int j = 0; j < num_features; j++) {
      float value;
      MPI_Unpack(
          recvbuf, recv_size, &pos, &value, 1, MPI_FLOAT, apollo_mpi_comm);
      features.push_back(value);
    }''', '''    features.reserve(num_features);
    while (static_cast<int>(features.size()) < num_features) {
      float value;
      MPI_Unpack(
          recvbuf, recv_size, &pos, &value, 1, MPI_FLOAT, apollo_mpi_comm);
      features.push_back(value);
    }'''))

rf("b-apollo-gather-running-disp",
   (A, '''  int disp[num_ranks];
  disp[0] = 0;
  for (int i = 1; i < num_ranks; i++) {
    disp[i] = disp[i - 1] + recv_size_per_rank[i - 1];
  }
''', '''  int disp[num_ranks];
  int next = 0;
  for (int i = 0; i < num_ranks; i++) {
    disp[i] = next;
    next += recv_size_per_rank[i];
  }
'''))

rf("b-apollo-train-helper",
   (A, "void Apollo::train(int step, bool doCollectPendingContexts)\n{", '''static void mergeDatasets(std::map<std::string, Apollo::Region *> &regions,
                          Apollo::Dataset &merged)
{
  for (auto &it : regions)
    merged.insert(it.second->dataset);
}

void Apollo::train(int step, bool doCollectPendingContexts)
{'''),
   (A, '''    for (auto &it : regions) {
      Region *reg = it.second;
      // append per-region dataset to merged.
      merged_dataset.insert(reg->dataset);
    }

    // There is nothing to train on.
    if (merged_dataset.size() <= 0) return;
''', '''    mergeDatasets(regions, merged_dataset);

    // There is nothing to train on.
    if (merged_dataset.size() == 0) return;
'''))

rf("b-apollo-config-int-helper",
   (A, "Apollo::Apollo()\n{", '''static int envInt(const char *name, const char *fallback)
{
  const char *text = apolloUtils::safeGetEnv(name, fallback);
  return std::stoi(text);
}

Apollo::Apollo()
{'''),
   *[(A, '''  Config::%s =
      std::stoi(apolloUtils::safeGetEnv("%s", "%s"));''' % (n, n, d), '  Config::%s = envInt("%s", "%s");' % (n, n, d))
     for n, d in (("APOLLO_COLLECTIVE_TRAINING", 0), ("APOLLO_LOCAL_TRAINING", 1), ("APOLLO_SINGLE_MODEL", 0), ("APOLLO_REGION_MODEL", 1),
                  ("APOLLO_GLOBAL_TRAIN_PERIOD", 0), ("APOLLO_PER_REGION_TRAIN_PERIOD", 0), ("APOLLO_TRACE_CSV", 0),
                  ("APOLLO_PERSISTENT_DATASETS", 0), ("APOLLO_STORE_MODELS", 0))])

rf("b-apollo-create-local",
   (A, '''  return new Apollo::Region(
      num_features, id, num_policies, min_training_data, model_info);''', '''  Apollo::Region *created = new Apollo::Region(
      num_features, id, num_policies, min_training_data, std::string(model_info));
  return static_cast<void *>(created);'''),
   (A, '''  int policy = r->getPolicyIndex();
  // std::cout << "GET POLICY " << policy << " region " << r->name << std::endl;
  return policy;''', "  return r->getPolicyIndex();"))

rf("b-dataset-insert-ternary",
   (D, '''  auto it = data.find(key);
  if (it == data.end())
    data.emplace(std::move(key), metric);
  else
    // Exponential moving average (a=0.5) to update the metric.
    it->second = .5 * it->second + .5 * metric;''', '''  const auto found = data.find(key);
  const bool seen = found != data.end();
  if (seen) {
    // Exponential moving average (a=0.5) to update the metric.
    double &average = found->second;
    average = (average + metric) * .5;
    return;
  }
  data.insert(std::make_pair(std::move(key), metric));'''))

rf("b-dataset-insert-alpha",
   (D, "    it->second = .5 * it->second + .5 * metric;", '''  {
    constexpr double alpha = 0.5;
    it->second = alpha * metric + (1.0 - alpha) * it->second;
  }'''))

rf("b-dataset-tuples-index",
   (D, '''    const auto &features = d.first.first;
    const auto &policy = d.first.second;
    const auto &metric = d.second;
    vector.push_back(std::make_tuple(features, policy, metric));''', '''    const auto &key = d.first;
    vector.emplace_back(key.first, key.second, d.second);'''))

rf("b-dataset-min-brackets",
   (D, '''    auto iter = best_policies.find(features);
    if (iter == best_policies.end()) {
      best_policies.insert(
          std::make_pair(features, std::make_pair(policy, avg)));
    } else {
      double prev_avg = best_policies[features].second;
      if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);
    }''', '''    auto iter = best_policies.find(features);
    if (iter == best_policies.end() || avg < iter->second.second)
      best_policies[features] = {policy, avg};'''))

rf("b-dataset-store-index-for",
   (D, '''    os << "  " << idx << ": { features: [ ";
    for (auto &f : features)
      os << float(f) << ", ";
    os << "], ";
    os << "policy: " << policy << ", ";
    os << "xtime: " << metric;
    os << " },\\n";
    ++idx;''', '''    os << "  " << idx++ << ": { features: [ ";
    for (size_t i = 0; i < features.size(); ++i)
      os << features[i] << ", ";
    os << "], policy: " << policy << ", xtime: " << metric << " },\\n";'''))

rf("b-dataset-load-expect",
   (D, "void Apollo::Dataset::load(std::istream &is)\n{", '''static void expectNext(Parser &parser, const char *text)
{
  parser.getNextToken();
  parser.parseExpected(text);
}

void Apollo::Dataset::load(std::istream &is)
{'''),
   *[(D, '''    parser.getNextToken();
    parser.parseExpected("%s");''' % w, '    expectNext(parser, "%s");' % w) for w in ("features:", "[", "policy:", "xtime:", "},")])

rf("b-dataset-load-do",
   (D, '''    while (!parser.getNextTokenEquals("],")) {
      float feature;
      parser.parse<float>(feature);
      parser.parseExpected(",");
      features.push_back(feature);
    }''', '''    parser.getNextToken();
    while (!parser.getTokenEquals("],")) {
      float feature;
      parser.parse<float>(feature);
      parser.parseExpected(",");
      features.push_back(feature);
      parser.getNextToken();
    }'''))

rf("b-factory-count-at",
   (F, '''    int policy = 0;
    auto it = model_params.find("policy");
    if (it != model_params.end()) policy = std::stoi(it->second);
    if (policy < 0)''', '''    int policy =
        model_params.count("policy") ? std::stoi(model_params.at("policy")) : 0;
    if (policy < 0)'''))

rf("b-factory-explore-name",
   *[(F, '''    if (it != model_params.end())
      explorer = createPolicyModel(it->second,
                                   num_features,
                                   num_policies,
                                   explore_model_params);
    else
      // Default explorer model is RoundRobin.
      explorer = createPolicyModel("RoundRobin",
                                   num_features,
                                   num_policies,
                                   explore_model_params);
''', '''    // Default explorer model is RoundRobin.
    std::string explorer_name = "RoundRobin";
    if (it != model_params.end()) explorer_name = it->second;
    explorer = createPolicyModel(
        explorer_name, num_features, num_policies, explore_model_params);
''')] * 2)

rf("b-factory-net-lambda",
   (F, '''    double lr = 1e-2;
    double beta = 0.5;
    double beta1 = 0.5;
    double beta2 = 0.9;
    double threshold = 0.0;
    auto it = model_params.find("lr");
    if (it != model_params.end()) lr = std::stod(it->second);
    it = model_params.find("beta");
    if (it != model_params.end()) beta = std::stod(it->second);
    it = model_params.find("beta1");
    if (it != model_params.end()) beta1 = std::stod(it->second);
    it = model_params.find("beta2");
    if (it != model_params.end()) beta2 = std::stod(it->second);
    it = model_params.find("threshold");
    if (it != model_params.end()) threshold = std::stod(it->second);
''', '''    const auto number = [&model_params](const char *key, double fallback) {
      const auto it = model_params.find(key);
      return it == model_params.end() ? fallback : std::stod(it->second);
    };
    const double lr = number("lr", 1e-2);
    const double beta = number("beta", 0.5);
    const double beta1 = number("beta1", 0.5);
    const double beta2 = number("beta2", 0.9);
    const double threshold = number("threshold", 0.0);
'''))

rf("b-parser-char-local",
   (PR, '''    while (!std::isspace(*it)) {
      buffer[idx] = *it;
      ++idx;
      ++it;
      if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");
    }''', '''    for (char c = *it; !std::isspace(c); c = *it) {
      buffer[idx++] = c;
      if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");
      ++it;
    }'''))

rf("b-parser-check-first",
   (PR, '''      buffer[idx] = *it;
      ++idx;
      ++it;
      if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");''', '''      if (idx + 1 >= BUFSIZE) fatal_error("Token exceeds buffer size");
      buffer[idx++] = *it;
      ++it;'''))

rf("b-parser-number-template",
   (PR, '''template <>
void Parser::parse(int &val)
{
  std::size_t pos;
  val = std::stoi(token, &pos);
  token = &buffer[pos];
}''', '''template <>
void Parser::parse(int &val)
{
  std::size_t used = 0;
  const std::string text(token);
  val = std::stoi(text, &used);
  token = buffer + used;
}'''))

rf("b-parser-expected-equals",
   (PR, "  if (std::strcmp(token, expected)) {", "  if (!getTokenEquals(expected)) {"))

rf("b-tree-train-reserve",
   *[(DT_, '''  for (size_t i = 0, end = features.size(); i < end; ++i)
    data.emplace_back(std::move(features[i]), responses[i]);
''', '''  const size_t num_examples = features.size();
  data.reserve(num_examples);
  for (size_t i = 0; i != num_examples; i++)
    data.push_back(std::make_pair(std::move(features[i]), responses[i]));
''')] * 2,
   *[(DT_, "  num_features = features.begin()->size();", "  num_features = features.front().size();")] * 2)

rf("b-tree-evaluate-ternary",
   (DT_, '''  if (features[tree.feature_idx] < tree.threshold) {
    if (tree.left) return evaluate_tree(*tree.left, features);
  } else if (tree.right)
    return evaluate_tree(*tree.right, features);
  return tree.predicted_class;''', '''  const bool go_left = features[tree.feature_idx] < tree.threshold;
  const Node *child = go_left ? tree.left : tree.right;
  return child ? evaluate_tree(*child, features) : tree.predicted_class;'''))

rf("b-tree-build-one-if",
   (DT_, '''  // Return if max_depth reached.
  if (depth >= max_depth) return node;

  // Return if there is only one sample.
  if (Begin == End) return node;

  // Return if the gini is 0 (samples of the same class).
  if (gini_score <= 0.0f) return node;
''', '''  // A leaf: max_depth reached, no sample, or samples of the same class.
  const bool is_leaf = depth >= max_depth || size == 0 || gini_score <= 0.0f;
  if (is_leaf) return node;
'''))

rf("b-tree-build-get",
   (DT_, '''  float min_gini;
  Iterator split_it;
  int split_feature_idx;
  float threshold;
  std::tie(min_gini, split_it, split_feature_idx, threshold) =
      split(Begin, End);
  assert(split_it != End);

  node->feature_idx = split_feature_idx;
  node->threshold = threshold;
  node->left''', '''  const auto best = split(Begin, End);
  const Iterator split_it = std::get<1>(best);
  assert(split_it != End);

  node->feature_idx = std::get<2>(best);
  node->threshold = std::get<3>(best);
  node->left'''))

rf("b-tree-split-comparator",
   (DT_, '''    std::sort(Begin,
              End,
              [&feature_idx](const std::pair<std::vector<float>, int> &x,
                             const std::pair<std::vector<float>, int> &y) {
                return x.first[feature_idx] < y.first[feature_idx];
              });
    for''', '''    const auto by_feature = [feature_idx](const auto &x, const auto &y) {
      return x.first[feature_idx] < y.first[feature_idx];
    };
    std::sort(Begin, End, by_feature);
    for'''))

rf("b-tree-split-better-flag",
   (DT_, '''      // This split does not reduce gini, continue
      if (g >= min_gini) continue;
      min_gini = g;
      split_it = It;
      split_feature_idx = feature_idx;
      split_threshold = ((double)feature_val_left + feature_val_right) / 2.0;
      // The mean of adjacent floats may round to the left value, which must
      // compare less than the threshold.
      if (split_threshold <= feature_val_left)
        split_threshold = feature_val_right;
    }''', '''      const bool worse = g >= min_gini;
      if (!worse) {
        const float middle =
            (static_cast<double>(feature_val_left) + feature_val_right) / 2.0;
        min_gini = g;
        split_it = It;
        split_feature_idx = feature_idx;
        // The mean of adjacent floats may round to the left value, which must
        // compare less than the threshold.
        split_threshold =
            middle <= feature_val_left ? feature_val_right : middle;
      }
    }'''))

rf("b-tree-counts-map-free",
   (DT_, '''  for (auto it = classes.begin(), end = classes.end(); it != end; ++it) {
    int cls = *it;
    int count = 0;
    for (auto It = Begin; It != End; ++It) {
      int data_cls = It->second;
      if (data_cls == cls) count++;
    }

    count_per_class.push_back(count);
  }
''', '''  count_per_class.reserve(classes.size());
  for (const int cls : classes) {
    size_t matching = 0;
    for (auto It = Begin; It != End; ++It)
      matching += (It->second == cls) ? 1 : 0;
    count_per_class.emplace_back(matching);
  }
'''))

rf("b-tree-jit-name-locals",
   (DT_, '''  std::string shared_library_name =
      std::string("/tmp/") + function_name + std::string(".so");
  std::stringstream sstream;''', '''  const std::string base = "/tmp/" + function_name;
  const std::string shared_library_name = base + ".so";
  std::stringstream sstream;'''),
   (DT_, '''  std::ofstream ofs(std::string("/tmp/" + function_name + std::string(".cpp")));
''', '''  std::ofstream ofs(base + ".cpp");
'''))

rf("b-tree-save-scope",
   (DT_, '''  OutputFormatter outfmt(ofs);
  outfmt << "# DecisionTreeImpl\\n";
  output_tree(outfmt, "tree");
  ofs.close();''', '''  OutputFormatter outfmt(ofs);
  const std::string key = "tree";
  outfmt << "# DecisionTreeImpl\\n";
  output_tree(outfmt, key);'''))

rf("b-forest-sample-helper",
   (RFI, "void RandomForestImpl::train(", '''static void resample(std::vector<std::vector<float>> &features,
                     std::vector<int> &responses,
                     std::mt19937 &generator,
                     std::uniform_int_distribution<size_t> &uniform_dist,
                     std::vector<std::vector<float>> &sample_features,
                     std::vector<int> &sample_responses)
{
  const size_t n = features.size();
  for (size_t i = 0; i < n; ++i) {
    const size_t sample_idx = uniform_dist(generator);
    sample_features.push_back(features[sample_idx]);
    sample_responses.push_back(responses[sample_idx]);
  }
}

void RandomForestImpl::train('''),
   *[(RFI, '''    // Random pick with replacement of features, responses
    for (size_t i = 0, end = features.size(); i < end; ++i) {
      int sample_idx = uniform_dist(generator);
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx]);
    }
''', '''    // Random pick with replacement of features, responses
    resample(features,
             responses,
             generator,
             uniform_dist,
             sample_features,
             sample_responses);
''')] * 2)

rf("b-forest-output-for",
   (RFI, '''  unsigned tree_idx = 0;
  for (auto &dtree : rfc) {
    ++outfmt;
    dtree->output_tree(outfmt, "tree");
    outfmt << ",\\n";
    --outfmt;
    tree_idx++;
  }
''', '''  for (size_t i = 0; i < rfc.size(); ++i) {
    ++outfmt;
    rfc[i]->output_tree(outfmt, "tree");
    outfmt << ",\\n";
    --outfmt;
  }
'''))

rf("b-forest-predict-running-best",
   (RFI, '''  int class_idx = 0;
  for (size_t i = 1; i < num_classes; ++i)
    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;

  return class_idx;''', '''  int best = 0;
  int best_votes = count_per_class[0];
  for (int i = 1; i < num_classes; ++i) {
    if (count_per_class[i] <= best_votes) continue;
    best = i;
    best_votes = count_per_class[i];
  }

  return best;'''))

# ---------------------------------------------------------------- third round: helpers in the classes, the rest of the code
RH, KK, TS, TC = "include/apollo/Region.h", "src/connectors/kokkos/kokkos-connector.cpp", "src/timers/TimerSync.cpp", "src/timers/TimerCudaAsync.cpp"
CD, RFM = "src/python/modeling/create-dataset.py", "src/models/RandomForest.cpp"

rf("c-region-private-trace",
   (RH, "  void autoTrain();\n", "  void autoTrain();\n  void traceExecution(Apollo::RegionContext *context, double metric);\n"),
   (R, '''void Apollo::Region::collectContext(Apollo::RegionContext *context,
                                    double metric)
{
  if (Config::APOLLO_TRACE_CSV) {
    auto ts''', '''void Apollo::Region::traceExecution(Apollo::RegionContext *context,
                                    double metric)
{
  if (!Config::APOLLO_TRACE_CSV) return;
  {
    auto ts'''),
   (R, '''    trace_file << metric << "\\n";
  }

  if (Config''', '''    trace_file << metric << "\\n";
  }
}

void Apollo::Region::collectContext(Apollo::RegionContext *context,
                                    double metric)
{
  traceExecution(context, metric);

  if (Config'''))

rf("c-region-private-open-trace",
   (RH, "  void autoTrain();\n", "  void autoTrain();\n  void openTrace();\n  bool loadDataset();\n"),
   (R, "Apollo::Region::~Region()\n", '''bool Apollo::Region::loadDataset()
{
  std::ifstream ifs(Config::APOLLO_OUTPUT_DIR + "/" +
                    Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                    std::string(name) + ".yaml");
  if (!ifs) return false;
  dataset.load(ifs);
  return true;
}

void Apollo::Region::openTrace()
{
  const std::string fname(Config::APOLLO_OUTPUT_DIR + "/" +
                          Config::APOLLO_TRACES_DIR + "/trace-" + model_info +
                          "-region-" + name + "-rank-" +
                          std::to_string(apollo->mpiRank) + ".csv");
  std::cout << "TRACE_CSV fname " << fname << std::endl;
  trace_file.open(fname);
  if (trace_file.fail()) {
    std::cerr << "Error opening trace file " + fname << std::endl;
    abort();
  }
  // Write header.
  trace_file << "rankid training region idx";
  for (int i = 0; i < num_features; i++)
    trace_file << " f" << i;
  trace_file << " policy xtime\\n";
}

Apollo::Region::~Region()
'''),
   (R, '''    std::string dataset_file = Config::APOLLO_OUTPUT_DIR + "/" +
                               Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                               std::string(name) + ".yaml";
    std::ifstream ifs(dataset_file);
    if (ifs) dataset.load(ifs);
    ifs.close();
''', "    loadDataset();\n"),
   (R, '''  if (Config::APOLLO_TRACE_CSV) {
    std::string fname(Config::APOLLO_OUTPUT_DIR + "/" +
                      Config::APOLLO_TRACES_DIR + "/trace-" + model_info +
                      "-region-" + name + "-rank-" +
                      std::to_string(apollo->mpiRank) + ".csv");
    std::cout << "TRACE_CSV fname " << fname << std::endl;
    trace_file.open(fname);
    if (trace_file.fail()) {
      std::cerr << "Error opening trace file " + fname << std::endl;
      abort();
    }
    // Write header.
    trace_file << "rankid training region idx";
    // trace_file << "features";
    for (int i = 0; i < num_features; i++)
      trace_file << " f" << i;
    trace_file << " policy xtime\\n";
  }
''', "  if (Config::APOLLO_TRACE_CSV) openTrace();\n"))

rf("c-region-private-store",
   (RH, "  void autoTrain();\n", "  void autoTrain();\n  void storeModel(const std::string &version);\n"),
   (R, "int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)\n", '''void Apollo::Region::storeModel(const std::string &version)
{
  model->store(Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR +
               "/" + model->name + "-" + version + "-rank-" +
               std::to_string(apollo->mpiRank) + "-" + name + ".yaml");
}

int Apollo::Region::getPolicyIndex(Apollo::RegionContext *context)
'''),
   (R, '''    std::string filename =
        Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR + "/" +
        model->name + "-step-" + std::to_string(step) + "-rank-" +
        std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    model->store(filename);
    filename = Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR +
               "/" + model->name +
               "-latest"
               "-rank-" +
               std::to_string(apollo->mpiRank) + "-" + name + ".yaml";
    model->store(filename);
''', '''    storeModel("step-" + std::to_string(step));
    storeModel("latest");
'''))

rf("c-region-should-train",
   (RH, "  void autoTrain();\n", "  void autoTrain();\n  bool hasEnoughData() const\n  {\n    return min_training_data > 0 &&\n           const_cast<Region *>(this)->dataset.size() >= min_training_data;\n  }\n"),
   (R, "else if (0 < min_training_data && min_training_data <= dataset.size())", "else if (hasEnoughData())"))

rf("c-region-begin-deprecated",
   (R, '''  Apollo::RegionContext *context = begin();
  context->features = features;
  return context;''', '''  auto *const context = begin(TIMING_SYNC);
  for (const float feature : features)
    setFeature(context, feature);
  return context;'''))

rf("c-region-file-exists-stream",
   (R, '''  struct stat stbuf;
  return (stat(path.c_str(), &stbuf) == 0);''', '''  struct stat info;
  const int status = stat(path.c_str(), &info);
  return status == 0;'''))

rf("c-region-name-copy",
   (R, '''  strncpy(name, regionName, sizeof(name) - 1);
  name[sizeof(name) - 1] = '\\0';''', '''  constexpr size_t last = sizeof(name) - 1;
  std::strncpy(name, regionName, last);
  name[last] = 0;'''))

rf("c-region-header-while",
   (R, '''    for (int i = 0; i < num_features; i++)
      trace_file << " f" << i;
    trace_file << " policy xtime\\n";''', '''    int column = 0;
    while (column < num_features) {
      trace_file << " f" << column;
      ++column;
    }
    trace_file << " policy" << " xtime" << "\\n";'''))

rf("c-region-dtor-empty",
   (R, '''  while (pending_contexts.size() > 0)
    collectPendingContexts();''', '''  while (!pending_contexts.empty()) {
    collectPendingContexts();
  }'''))

rf("c-region-best-policies-helper",
   (R, "void Apollo::Region::train(int step, bool", '''static void writeBest(
    std::ostream &out,
    const std::map<std::vector<float>, std::pair<int, double>> &best)
{
  for (const auto &entry : best) {
    out << "[ ";
    for (float f : entry.first)
      out << int(f) << ", ";
    out << "] P:" << entry.second.first << " T: " << entry.second.second
        << std::endl;
  }
}

void Apollo::Region::train(int step, bool'''),
   (R, '''    for (auto &b : min_metric_policies) {
      trace_out << "[ ";
      for (auto &f : b.first)
        trace_out << (int)f << ", ";
      trace_out << "] P:" << b.second.first << " T: " << b.second.second
                << std::endl;
    }
''', "    writeBest(trace_out, min_metric_policies);\n"))

rf("c-kokkos-count-locals",
   (KK, '''      return 1 + ((((!in.openUpper) ? in.upper.int_value
                                    : (in.upper.int_value - 1)) -
                   ((!in.openLower) ? in.lower.int_value
                                    : (in.lower.int_value + 1))) /
                  in.step.int_value);
    case''', '''    {
      int64_t last = in.upper.int_value;
      if (in.openUpper) last -= 1;
      int64_t first = in.lower.int_value;
      if (in.openLower) first += 1;
      return (last - first) / in.step.int_value + 1;
    }
    case'''))

rf("c-kokkos-form-hoist",
   (KK, '''    for (int x = 0; x < num_slices; ++x) {
      auto lower =
          (with_this.openLower ? (with_this.lower.int_value + 1)
                               : with_this.lower.int_value);
      Kokkos_Tools_VariableValue_ValueUnion value;
      value.int_value = lower + (x * with_this.step.int_value);
      fill_this[x] = mvv(id, value, info);
    }''', '''    int64_t next = with_this.lower.int_value;
    if (with_this.openLower) ++next;
    for (int x = 0; x < num_slices; ++x) {
      Kokkos_Tools_VariableValue_ValueUnion value;
      value.int_value = next;
      fill_this[x] = mvv(id, value, info);
      next += with_this.step.int_value;
    }'''))

rf("c-kokkos-tunable-helper",
   (KK, '''extern "C" void kokkosp_request_values(''', '''static bool isTunable(const Kokkos::Tools::Experimental::VariableValue &value)
{
  return untunables.count(value.type_id) == 0;
}

extern "C" void kokkosp_request_values('''),
   (KK, '''    if (untunables.find(contextValues[x].type_id) == untunables.end()) {
      tuningProblem''', '''    if (isTunable(contextValues[x])) {
      tuningProblem'''),
   (KK, '''    if (untunables.find(contextValues[x].type_id) == untunables.end()) {
      region->''', '''    if (isTunable(contextValues[x])) {
      region->'''))

rf("c-kokkos-decode-locals",
   (KK, '''    int set_size = metadata->candidate_set_size;
    int local_policy_choice = policyChoice % set_size;
    tuningValues[x] = mvv(tuningValues[x].type_id,
                          metadata->candidate_values[local_policy_choice].value,
                          (tuningValues[x].metadata));
    policyChoice /= set_size;''', '''    const int set_size = metadata->candidate_set_size;
    const int digit = policyChoice % set_size;
    policyChoice = policyChoice / set_size;
    auto &target = tuningValues[x];
    const auto &candidate = metadata->candidate_values[digit];
    target = mvv(target.type_id, candidate.value, target.metadata);'''))

rf("c-kokkos-end-iter",
   (KK, '''  auto region_context = search->second;
  auto region = region_context.first;
  auto context = region_context.second;
  region->end(context);
  tuned_contexts.erase(contextId);''', '''  Apollo::Region *const region = search->second.first;
  Apollo::RegionContext *const context = search->second.second;
  tuned_contexts.erase(search);
  region->end(context);'''))

rf("c-kokkos-less-first-difference",
   (KK, '''    if (l.num_variables != r.num_variables) {
      return l.num_variables < r.num_variables;
    }
    for (int x = 0; x < l.num_variables; ++x) {
      if (l.variable_ids[x].type_id != r.variable_ids[x].type_id) {
        return l.variable_ids[x].type_id < r.variable_ids[x].type_id;
      }
    }
    return false;''', '''    if (l.num_variables < r.num_variables) return true;
    if (r.num_variables < l.num_variables) return false;
    for (size_t x = 0; x < l.num_variables; ++x) {
      const auto left = l.variable_ids[x].type_id;
      const auto right = r.variable_ids[x].type_id;
      if (left == right) continue;
      return left < right;
    }
    return false;'''))

rf("c-kokkos-region-args",
   (KK, '''    Apollo::Region *region;
    if (file_exists(final_name)) {
      region = new''', '''    Apollo::Region *region = nullptr;
    const bool trained = file_exists(final_name);
    if (trained) {
      region = new'''))

rf("c-timer-sync-helper",
   (TS, "void TimerSync::start()\n{", '''namespace
{
void sample(double &out)
{
  timespec now;
  clock_gettime(CLOCK_MONOTONIC, &now);
  out = now.tv_sec + 1e-9 * now.tv_nsec;
}
}  // namespace

void TimerSync::start()
{'''),
   (TS, '''  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;''', "  sample(exec_time_begin);"),
   (TS, '''  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;''', "  sample(exec_time_end);"))

rf("c-timer-cuda-switch",
   (TC, '''  float cudaTime;

  static cudaError_t code;
  if ((code = cudaEventElapsedTime(&cudaTime, event_start, event_stop)) !=
      cudaSuccess) {
    if (code == cudaErrorNotReady) return false;

    cudaAssert(code, __FILE__, __LINE__);
  }

  // Convert from ms to s
  metric = cudaTime / 1000.0;
  return true;''', '''  float milliseconds = 0;
  const cudaError_t code =
      cudaEventElapsedTime(&milliseconds, event_start, event_stop);
  if (code == cudaErrorNotReady) return false;
  cudaErrchk(code);

  metric = milliseconds / 1000.0;
  return true;'''))

rf("c-forest-model-getindex",
   (RFM, '''  if (!trainable) return rfc->predict(features);

  return explorer->getIndex(features);''', '''  const bool exploring = trainable;
  return exploring ? explorer->getIndex(features) : rfc->predict(features);'''))

rf("c-forest-model-order",
   (RFM, "  rfc->train(features, responses);\n#endif\n\n  trainable = false;", "  rfc->train(features, responses);\n#endif\n  this->trainable = !true;"))

rf("c-py-join",
   (CD, '''    features = [str(n) for n in features]
    output = '  ' + str(index) + ': { features: [ '
    for fi in features:
        output += fi + ', '
    output += ']'
    output += ', policy: ' + str(policy)
    output += ', xtime: ' + str(xtime)
    output += ' },\\n'
    return output''', '''    listed = ''.join(str(n) + ', ' for n in features)
    return f'  {index}: {{ features: [ {listed}], policy: {policy}, xtime: {xtime} }},\\n\''''))

rf("c-py-dispatch",
   (CD, '''        if args.agg == 'none':
            output = agg_by_none(data_per_region)
        elif args.agg == 'mean':
            output = agg_by_mean(data_per_region)
        elif args.agg == 'min':
            output = agg_by_min(data_per_region)
        elif args.agg == 'mean-min':
            output = agg_by_mean_min(data_per_region)
        else:
            raise RuntimeError('Invalid aggregation args ' + str(args.agg))
''', '''        aggregate = {'none': agg_by_none, 'mean': agg_by_mean,
                     'min': agg_by_min, 'mean-min': agg_by_mean_min}
        if args.agg not in aggregate:
            raise RuntimeError('Invalid aggregation args ' + str(args.agg))
        output = aggregate[args.agg](data_per_region)
'''))

rf("c-py-enumerate",
   (CD, '''    index = 0
    for name, g in groups:
        features = name[:-1]
        policy = name[-1]
        xtime = g['xtime'].mean()
        output += print_to_str(index, features, policy, xtime)
        index += 1
''', '''    for index, (name, g) in enumerate(groups):
        *features, policy = name
        output += print_to_str(index, features, policy, g['xtime'].mean())
'''))

rf("c-py-columns-helper",
   (CD, "def agg_by_none(data_per_region):", "def feature_columns(data_per_region):\n    return list(data_per_region.columns[5:-2])\n\n\ndef agg_by_none(data_per_region):"),
   *[(CD, "    feature_cols = list(data_per_region.columns[5:-2])", "    feature_cols = feature_columns(data_per_region)")] * 4)

rf("c-net-getindex-early-cache",
   (PN2, '''  auto it = actionProbabilityMap.find(key);
  if (it != actionProbabilityMap.end()) {
    // Use the previously evaluated action probabilities.
    actionProbs = it->second;
  } else {''', '''  const auto cached = actionProbabilityMap.find(key);
  const bool hit = cached != actionProbabilityMap.end();
  if (hit) actionProbs = cached->second;
  if (!hit) {'''))

rf("c-net-getindex-encode-helper",
   (PN2, "int PolicyNet::getIndex(std::vector<float> &features)\n{", '''static void encode(const std::vector<float> &features, double *state)
{
  for (size_t i = 0; i < features.size(); i++) {
    const std::bitset<64> bits(static_cast<uint64_t>(features[i]));
    for (size_t j = 0; j < 64; ++j)
      state[64 * i + j] = bits[j] ? 1.0 : 0.0;
  }
}

int PolicyNet::getIndex(std::vector<float> &features)
{'''),
   (PN2, '''    for (int i = 0; i < features.size(); i++) {
      // Each feature is encoded in 64-bits.
      size_t index = i * 64;
      std::bitset<sizeof(uint64_t) * CHAR_BIT> bits((uint64_t)features[i]);
      for (int j = 0; j < 64; ++j) {
        evalState[index + j] = bits[j];
      }
    }
''', "    encode(features, evalState);\n"))

rf("c-net-trainnet-batches",
   (PN2, '''    for (int j = 0; j < inputSize; ++j)
      trainStates[i * inputSize + j] = states[i][j];

    trainActions[i] = actions[i];
    trainRewards[i] =
        rewards[i] -
        baseline;  // Subtract the moving average baseline to reduce variance.''', '''    const auto &state = states[i];
    double *row = trainStates + i * inputSize;
    for (int j = 0; j < inputSize; ++j)
      row[j] = state[j];

    trainActions[i] = actions[i];
    // Subtract the moving average baseline to reduce variance.
    const double advantage = rewards[i] - baseline;
    trainRewards[i] = advantage;'''))

rf("c-net-trainnet-baseline",
   (PN2, '''  // Debias the estimate of the moving average.
  double baseline = rewardMovingAvg / (1 - std::pow(beta, ++trainCount));
''', '''  // Debias the estimate of the moving average.
  trainCount += 1;
  const double bias = 1 - std::pow(beta, trainCount);
  const double baseline = rewardMovingAvg / bias;
'''))

rf("c-net-store-layer-helper",
   (PN2, "void PolicyNet::store(const std::string &filename)\n{", '''static void writeLayer(std::ofstream &f, const FCLayer &layer)
{
  const size_t num_weights = layer.inputSize * layer.outputSize;
  f.write(reinterpret_cast<const char *>(layer.weights),
          num_weights * sizeof(double));
  f.write(reinterpret_cast<const char *>(layer.bias),
          layer.outputSize * sizeof(double));
}

void PolicyNet::store(const std::string &filename)
{'''),
   *[(PN2, '''  f.write((char *)net->layer%d.weights,
          sizeof(double) * net->layer%d.inputSize * net->layer%d.outputSize);
  f.write((char *)net->layer%d.bias, sizeof(double) * net->layer%d.outputSize);
''' % (n, n, n, n, n), "  writeLayer(f, net->layer%d);\n" % n) for n in (1, 2, 3)])

rf("c-optimal-shared-read",
   (M + "Optimal.cpp", '''Optimal::Optimal(std::string file) : PolicyModel(0, "Optimal")
{
  std::ifstream infile(file);
  std::string policy_str;

  while (std::getline(infile, policy_str, ','))
    optimal_policy.push_back(std::stoi(policy_str));

  infile.close();
}''', '''Optimal::Optimal(std::string file) : PolicyModel(0, "Optimal") { load(file); }'''),
   (M + "Optimal.cpp", '''  int policy = optimal_policy.front();
  optimal_policy.pop_front();
  return policy;''', '''  const int next = *optimal_policy.begin();
  optimal_policy.erase(optimal_policy.begin());
  return next;'''))

# ---------------------------------------------------------------- a last round
_R, _D, _N = "src/Region.cpp", "src/Dataset.cpp", "src/models/PolicyNet.cpp"
rf("d-region-ostream-iterator", (_R, "#include <", "#include <algorithm>\n#include <iterator>\n#include <", 1) if False else
   (_R, '''    for (auto &f : context->features)
      trace_file << f << " ";
    trace_file << context->policy << " ";
    trace_file << metric << "\\n";''', '''    const auto &fs = context->features;
    for (auto f = fs.cbegin(); f != fs.cend(); ++f)
      trace_file << *f << ' ';
    trace_file << context->policy << ' ' << metric << '\\n';'''))
rf("d-dataset-insert-bindings", (_D, '''  auto key = std::make_pair(std::move(features), policy);
  auto it = data.find(key);
  if (it == data.end())
    data.emplace(std::move(key), metric);
  else
    // Exponential moving average (a=0.5) to update the metric.
    it->second = .5 * it->second + .5 * metric;''', '''  const auto [it, inserted] =
      data.emplace(std::make_pair(std::move(features), policy), metric);
  if (!inserted) it->second = (it->second + metric) / 2;'''))
rf("d-dataset-insert-lower-bound", (_D, '''  auto it = data.find(key);
  if (it == data.end())
    data.emplace(std::move(key), metric);
  else
    // Exponential moving average (a=0.5) to update the metric.
    it->second = .5 * it->second + .5 * metric;''', '''  auto it = data.lower_bound(key);
  if (it == data.end() || it->first != key) {
    data.emplace_hint(it, std::move(key), metric);
    return;
  }
  it->second += .5 * (metric - it->second);'''))
rf("d-dataset-min-ref", (_D, '''    auto iter = best_policies.find(features);
    if (iter == best_policies.end()) {
      best_policies.insert(
          std::make_pair(features, std::make_pair(policy, avg)));
    } else {
      double prev_avg = best_policies[features].second;
      if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);
    }''', '''    if (best_policies.count(features) > 0) {
      auto &best = best_policies.at(features);
      if (best.second > avg) {
        best.first = policy;
        best.second = avg;
      }
      continue;
    }
    best_policies[features] = {policy, avg};'''))
rf("d-dataset-min-swap-out", (_D, "  min_metric_policies = best_policies;", "  min_metric_policies.swap(best_policies);"))
rf("d-net-forward-rows", (_N, '''    for (int i = 0; i < batchSize; ++i) {
      for (int j = 0; j < outputSize; ++j) {
        for (int k = 0; k < inputSize; ++k) {
          outputs[i * outputSize + j] +=
              weights[j * inputSize + k] * inputs[i * inputSize + k];
        }

        outputs[i * outputSize + j] += bias[j];
      }
    }

    return outputs;''', '''    for (int i = 0; i < batchSize; ++i) {
      const double *x = inputs + i * inputSize;
      double *y = outputs + i * outputSize;
      for (int j = 0; j < outputSize; ++j) {
        const double *w = &weights[j * inputSize];
        for (int k = 0; k < inputSize; ++k)
          y[j] += w[k] * x[k];
        y[j] += bias[j];
      }
    }

    return outputs;'''))
rf("d-net-backward-split", (_N, '''        for (int k = 0; k < inputSize; ++k) {
          weights_grad[j * inputSize + k] +=
              chainRuleGrad[i * outputSize + j] * inputs[i * inputSize + k];
          inputGrad[i * inputSize + k] +=
              chainRuleGrad[i * outputSize + j] * weights[j * inputSize + k];
        }

        bias_grad[j] += chainRuleGrad[i * outputSize + j];''', '''        const double g = chainRuleGrad[i * outputSize + j];
        bias_grad[j] += g;
        for (int k = 0; k < inputSize; ++k)
          weights_grad[j * inputSize + k] += g * inputs[i * inputSize + k];
        for (int k = 0; k < inputSize; ++k)
          inputGrad[i * inputSize + k] += g * weights[j * inputSize + k];'''))
rf("d-net-dtor-null", (_N, '''    if (outputs != NULL) {
      delete[] outputs;
      delete[] inputGrad;
    }
  }

  double *forward(double *inputs, int batchSize)
  {
    // Check if the current batch size is larger than the maximum so far.''', '''    delete[] outputs;
    if (outputs) delete[] inputGrad;
  }

  double *forward(double *inputs, int batchSize)
  {
    // Check if the current batch size is larger than the maximum so far.'''))
rf("d-datasetmap-at", ("src/models/DatasetMap.cpp", '''  int policy = best_policies[features].first;

  return policy;''', '''  return best_policies.at(features).first;'''))
rf("d-optimal-for", ("src/models/Optimal.cpp", '''void Optimal::load(const std::string &filename)
{
  std::ifstream infile(filename);
  std::string policy_str;

  while (std::getline(infile, policy_str, ','))
    optimal_policy.push_back(std::stoi(policy_str));

  infile.close();
}''', '''void Optimal::load(const std::string &filename)
{
  std::ifstream infile(filename);
  for (std::string field; std::getline(infile, field, ',');) {
    const int next = std::stoi(field);
    optimal_policy.emplace_back(next);
  }
}'''))
rf("d-roundrobin-ctor", ("src/models/RoundRobin.cpp", '''    : PolicyModel(num_policies, "RoundRobin")
{
  // TODO: Distributed RoundRobin uses mpi rank for offset.
  last_policy = -1;

  return;
}''', '''    : PolicyModel(num_policies, "RoundRobin"), last_policy(-1)
{
}'''), ("src/models/RoundRobin.cpp", '''  int choice = (last_policy + 1) % policy_count;
  last_policy = choice;
  return choice;
''', '''  ++last_policy;
  if (last_policy == policy_count) last_policy = 0;
  return last_policy;
'''))
rf("d-region-end-inline", (_R, '''  else if (0 < min_training_data && min_training_data <= dataset.size())
    train(idx, /* doCollectPendingContexts */ false);''', '''  else {
    const bool enough =
        min_training_data > 0 && dataset.size() >= (size_t)min_training_data;
    if (enough) train(idx, false);
  }''') if False else (_R, '''  } else if (0 < min_training_data && min_training_data <= dataset.size())
    train(idx, /* doCollectPendingContexts */ false);''', '''  } else {
    const bool enough =
        min_training_data > 0 && dataset.size() >= (size_t)min_training_data;
    if (enough) train(idx, false);
  }'''))
rf("d-timer-difftime", ("src/timers/TimerSync.cpp", '''  metric = exec_time_end - exec_time_begin;
  return true;''', '''  const double elapsed = exec_time_end - exec_time_begin;
  metric = elapsed;
  return true;'''), ("src/timers/TimerSync.cpp", '''  exec_time_begin = ts.tv_sec + ts.tv_nsec / 1e9;''', '''  exec_time_begin = static_cast<double>(ts.tv_sec) + 1e-9 * ts.tv_nsec;'''))
_A, _T, _F = "src/Apollo.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp"
rf("e-region-collect-stable", (_R, '''  pending_contexts.erase(std::remove_if(pending_contexts.begin(),
                                        pending_contexts.end(),
                                        isDone),
                         pending_contexts.end());''', '''  auto first_done = std::remove_if(pending_contexts.begin(),
                                   pending_contexts.end(),
                                   isDone);
  const size_t left = first_done - pending_contexts.begin();
  pending_contexts.resize(left);'''))
rf("e-region-end-switch", (_R, '''  context->timer->stop();
  if (context == &sync_context) {
    double metric;
    context->timer->isDone(metric);
    collectContext(context, metric);
    return;
  }
  pending_contexts.push_back(context);
  collectPendingContexts();''', '''  auto &timer = *context->timer;
  timer.stop();
  const bool async = context != &sync_context;
  if (async) {
    pending_contexts.emplace_back(context);
    collectPendingContexts();
  } else {
    double elapsed = 0;
    timer.isDone(elapsed);
    collectContext(context, elapsed);
  }'''))
rf("e-region-features-emplace", (_R, '''  context->features.push_back(value);
  return;''', '''  auto &fs = context->features;
  fs.insert(fs.end(), value);'''))
rf("e-apollo-pack-size-array", (_A, '''  int size = 0, measure_size = 0;
  // rank
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
  // num features
  MPI_Pack_size(1, MPI_INT, comm, &size);
  measure_size += size;
''', '''  int size = 0, measure_size = 0;
  // rank, num features
  for (int n = 0; n < 2; ++n) {
    MPI_Pack_size(1, MPI_INT, comm, &size);
    measure_size += size;
  }
'''))
rf("e-apollo-dtor-while", (_A, '''  for (auto &it : regions) {
    Region *r = it.second;
    delete r;
  }

  gtrace_file.close();''', '''  for (auto it = regions.begin(); it != regions.end(); ++it)
    delete it->second;
  gtrace_file.close();'''))
rf("e-apollo-dtor-bindings", (_A, '''    for (auto it : regions) {
      Region *r = it.second;
      file_out << r->name << ", " << r->idx << "\\n";
    }''', '''    for (const auto &[key, region] : regions)
      file_out << region->name << ", " << region->idx << '\\n';'''))
rf("e-tree-classes-loop", (_T, '''  classes.clear();
  classes.insert(responses.begin(), responses.end());''', '''  classes.clear();
  for (int response : responses)
    classes.insert(response);'''))
rf("e-tree-classes-fresh", (_T, '''  classes.clear();
  classes.insert(responses.begin(), responses.end());''', '''  classes = std::set<int>(responses.begin(), responses.end());'''))
rf("e-tree-read-rangefor", (_T, '''  for (auto it : classes)
''', '''  for (const int &it : classes)
'''))
rf("e-region-train-load-scope", (_R, '''    std::ifstream ifs(dataset_file);
    if (ifs) dataset.load(ifs);
    ifs.close();
''', '''    {
      std::ifstream stored(dataset_file);
      if (stored.good()) dataset.load(stored);
    }
'''))
rf("e-region-static-swap", (_R, '''    std::string policy = it->second;
    model_params.clear();
    model_params.emplace("policy", policy);
    model_info = "Static,policy=" + policy;''', '''    const std::string policy(it->second);
    model_params = {{"policy", policy}};
    model_info = std::string("Static,policy=").append(policy);'''))
rf("e-region-registers", (_R, "  const auto ret = apollo->regions.insert({name, this});\n", "  apollo->regions.emplace(name, this);\n"))
rf("e-tree-classes-with-data", (_T, '''  classes.clear();
  classes.insert(responses.begin(), responses.end());''', '''  classes.clear();
  for (size_t i = 0; i < responses.size(); ++i)
    classes.emplace(responses[i]);'''))
rf("e-tree-train-one-loop", (_T, '''  classes.clear();
  classes.insert(responses.begin(), responses.end());
  data.clear();
  for (size_t i = 0, end = features.size(); i < end; ++i)
    data.emplace_back(std::move(features[i]), responses[i]);
''', '''  classes.clear();
  data.clear();
  for (size_t i = 0, end = features.size(); i < end; ++i) {
    const int response = responses[i];
    classes.insert(response);
    data.emplace_back(std::move(features[i]), response);
  }
'''))
rf("e-tree-train-classes-after", (_T, '''  classes.clear();
  classes.insert(responses.begin(), responses.end());
  data.clear();
  for (size_t i = 0, end = features.size(); i < end; ++i)
    data.emplace_back(std::move(features[i]), responses[i]);
''', '''  data.clear();
  for (size_t i = 0, end = features.size(); i < end; ++i)
    data.emplace_back(std::move(features[i]), responses[i]);
  classes.clear();
  for (auto &d : data)
    classes.insert(d.second);
'''))
_C = "src/models/impl/DecisionTreeImpl.cpp"
rf("f-forest-ctor-trains", (_F, '''  for (unsigned i = 0; i < num_trees; i++) {
    std::vector<std::vector<float>> sample_features;
    std::vector<int> sample_responses;
    // Random pick with replacement of features, responses
    for (size_t i = 0, end = features.size(); i < end; ++i) {
      int sample_idx = uniform_dist(generator);
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx]);
    }

    rfc.push_back(std::make_unique<DecisionTreeImpl>(
        num_classes, sample_features, sample_responses, max_depth));
  }
}

void RandomForestImpl::output_rfc''', '''  rfc.reserve(num_trees);
  for (unsigned t = num_trees; t > 0; --t) {
    const size_t n = features.size();
    std::vector<std::vector<float>> xs(n);
    std::vector<int> ys(n);
    for (size_t s = 0; s < n; ++s) {
      const size_t pick = uniform_dist(generator);
      xs[s] = features[pick];
      ys[s] = responses[pick];
    }

    auto tree = std::make_unique<DecisionTreeImpl>(num_classes, xs, ys, max_depth);
    rfc.push_back(std::move(tree));
  }
}

void RandomForestImpl::output_rfc'''))
rf("f-forest-votes-vector", (_F, '''  int count_per_class[num_classes];
  for (size_t i = 0; i < num_classes; ++i)
    count_per_class[i] = 0;
''', '''  std::vector<int> count_per_class;
  count_per_class.resize(num_classes);
'''))
rf("f-forest-votes-fill", (_F, '''  for (size_t i = 0; i < num_classes; ++i)
    count_per_class[i] = 0;
''', '''  std::fill(count_per_class, count_per_class + num_classes, 0);
'''))
rf("f-forest-index-loop", (_F, '''  for (auto &dtree : rfc) {
    int dtree_prediction = dtree->predict(features);
''', '''  for (size_t t = 0; t != rfc.size(); ++t) {
    const auto &dtree = rfc.at(t);
    const int dtree_prediction = dtree->predict(features);
'''))
rf("f-forest-votes-map", (_F, '''  int count_per_class[num_classes];
  for (size_t i = 0; i < num_classes; ++i)
    count_per_class[i] = 0;
''', '''  std::map<int, int> count_per_class;
'''), (_F, '#include "RandomForestImpl.h"\n', '#include "RandomForestImpl.h"\n\n#include <map>\n'))
rf("f-tree-gini-count-map", (_C, '''    float p = (float)count / n_total;
    g += (p * p);
  }

  gini_score = 1.0f - g;''', '''    const float share = static_cast<float>(count) / n_total;
    g = g + share * share;
  }

  gini_score = 1 - g;'''))
rf("f-tree-predicted-iter", (_C, '''  int idx = std::distance(counts.begin(),
                          std::max_element(counts.begin(), counts.end()));
  predicted_class = *std::next(DT.classes.begin(), idx);''', '''  const auto most = std::max_element(counts.begin(), counts.end());
  auto cls = DT.classes.begin();
  std::advance(cls, most - counts.begin());
  predicted_class = *cls;'''))
rf("f-tree-predicted-loop", (_C, '''  int idx = std::distance(counts.begin(),
                          std::max_element(counts.begin(), counts.end()));
  predicted_class = *std::next(DT.classes.begin(), idx);''', '''  size_t idx = 0;
  for (size_t i = 1; i < counts.size(); ++i)
    if (counts[i] > counts[idx]) idx = i;
  predicted_class = *std::next(DT.classes.begin(), idx);'''))
rf("f-tree-predicted-walk", (_C, '''  int idx = std::distance(counts.begin(),
                          std::max_element(counts.begin(), counts.end()));
  predicted_class = *std::next(DT.classes.begin(), idx);''', '''  size_t most = 0, i = 0;
  predicted_class = *DT.classes.begin();
  for (int cls : DT.classes) {
    if (counts[i] > most) {
      most = counts[i];
      predicted_class = cls;
    }
    ++i;
  }'''))
rf("f-net-train-unique", (_N, '''  double *trainStates = new double[batchSize * inputSize];
  int *trainActions = new int[batchSize];
  double *trainRewards = new double[batchSize];
''', '''  std::unique_ptr<double[]> statesBuf(new double[batchSize * inputSize]);
  double *trainStates = statesBuf.get();
  int *trainActions = new int[batchSize];
  double *trainRewards = new double[batchSize];
'''), (_N, "  delete[] trainStates;\n  delete[] trainActions;\n", "  delete[] trainActions;\n"))
rf("f-net-probs-assign", (_N, '''    actionProbs = std::vector<double>(numPolicies);
    for (int i = 0; i < numPolicies; ++i)
      actionProbs[i] = evalActionProbs[i];
''', '''    actionProbs.assign(evalActionProbs, evalActionProbs + numPolicies);
'''))
rf("f-net-cache-emplace", (_N, "    actionProbabilityMap.insert(std::make_pair(key, actionProbs));", "    actionProbabilityMap.emplace(std::move(key), actionProbs);"))
rf("f-net-cache-brackets", (_N, "    actionProbabilityMap.insert(std::make_pair(key, actionProbs));", "    actionProbabilityMap[key] = actionProbs;"))
rf("f-net-avg-incremental", (_N, '''  rewardMovingAvg = beta * rewardMovingAvg + (1 - beta) * batchRewardAvg;
''', '''  rewardMovingAvg *= beta;
  rewardMovingAvg += (1 - beta) * batchRewardAvg;
'''))
rf("f-factory-stoi-helper", ("src/ModelFactory.cpp", '''    int policy = 0;
    auto it = model_params.find("policy");
    if (it != model_params.end()) policy = std::stoi(it->second);
''', '''    const auto given = model_params.find("policy");
    int policy = given == model_params.end() ? 0 : std::stoi(given->second);
'''))
_K = "src/connectors/kokkos/kokkos-connector.cpp"
rf("g-kokkos-less-lexicographic", (_K, '''    for (int x = 0; x < l.num_variables; ++x) {
      if (l.variable_ids[x].type_id != r.variable_ids[x].type_id) {
        return l.variable_ids[x].type_id < r.variable_ids[x].type_id;
      }
    }
    return false;''', '''    size_t x = 0;
    while (x < l.num_variables &&
           l.variable_ids[x].type_id == r.variable_ids[x].type_id)
      ++x;
    if (x == l.num_variables) return false;
    return l.variable_ids[x].type_id < r.variable_ids[x].type_id;'''))
rf("g-kokkos-find-insert", (_K, '''  auto iter =
      tuning_regions.emplace(tuningProblem, std::make_pair("", nullptr));
  if (iter.second) {
''', '''  const bool first_time = tuning_regions.count(tuningProblem) == 0;
  if (first_time) {
'''), (_K, "    iter.first->second = std::make_pair(name, region);\n  }\n  auto region = iter.first->second.second;", "    tuning_regions[tuningProblem] = std::make_pair(name, region);\n  }\n  auto region = tuning_regions[tuningProblem].second;"))
rf("g-kokkos-find-emplace", (_K, '''  auto iter =
      tuning_regions.emplace(tuningProblem, std::make_pair("", nullptr));
  if (iter.second) {
''', '''  auto known = tuning_regions.find(tuningProblem);
  if (known == tuning_regions.end()) {
'''), (_K, "    iter.first->second = std::make_pair(name, region);\n  }\n  auto region = iter.first->second.second;", "    known = tuning_regions.emplace(tuningProblem, std::make_pair(name, region)).first;\n  }\n  auto *region = known->second.second;"))
rf("g-kokkos-end-erase-iter", (_K, '''  auto region_context = search->second;
  auto region = region_context.first;
  auto context = region_context.second;
  region->end(context);
  tuned_contexts.erase(contextId);''', '''  auto *region = search->second.first;
  auto *context = search->second.second;
  tuned_contexts.erase(search);
  region->end(context);'''))
rf("g-kokkos-end-at", (_K, '''  auto search = tuned_contexts.find(contextId);
  if (search == tuned_contexts.end()) {
    return;
  }
  auto region_context = search->second;''', '''  if (tuned_contexts.count(contextId) == 0) return;
  const auto region_context = tuned_contexts.at(contextId);'''))
rf("g-kokkos-name-join", (_K, '''    std::string local_name(database_data->name);
    name += local_name;
    if (x == (variables.num_variables - 1)) {
      name += ".yaml";
    } else {
      name += "_";
    }
  }
  return name;''', '''    const bool last = x + 1 == variables.num_variables;
    name += database_data->name;
    name += last ? ".yaml" : "_";
  }
  return name;'''))
rf("g-kokkos-name-separators", (_K, '''    std::string local_name(database_data->name);
    name += local_name;
    if (x == (variables.num_variables - 1)) {
      name += ".yaml";
    } else {
      name += "_";
    }
  }
  return name;''', '''    if (x > 0) name += "_";
    name.append(database_data->name);
  }
  if (variables.num_variables > 0) name += ".yaml";
  return name;'''))
rf("g-kokkos-decode-divmod", (_K, '''    int set_size = metadata->candidate_set_size;
    int local_policy_choice = policyChoice % set_size;
    tuningValues[x] = mvv(tuningValues[x].type_id,
                          metadata->candidate_values[local_policy_choice].value,
                          (tuningValues[x].metadata));
    policyChoice /= set_size;''', '''    const int set_size = metadata->candidate_set_size;
    const int rest = policyChoice / set_size;
    const auto &candidate =
        metadata->candidate_values[policyChoice - rest * set_size];
    auto &tuned = tuningValues[x];
    tuned = mvv(tuned.type_id, candidate.value, tuned.metadata);
    policyChoice = rest;'''))
rf("g-kokkos-declare-helper", (_K, '''extern "C" void kokkosp_declare_output_type(
    const char *name,
    const size_t id,
    Kokkos::Tools::Experimental::VariableInfo *info)
{
  auto *metadata = new VariableDatabaseData();
  metadata->name = (char *)malloc(sizeof(char) * 65);
  strncpy(metadata->name, name, 64);
  metadata->name[64] = '\\0';
  info->toolProvidedInfo = metadata;
  associate_candidates(id, info);
}
''', '''static void remember_name(const char *name,
                          Kokkos::Tools::Experimental::VariableInfo *info)
{
  auto *metadata = new VariableDatabaseData();
  metadata->name = (char *)malloc(65);
  strncpy(metadata->name, name, 64);
  metadata->name[64] = 0;
  info->toolProvidedInfo = metadata;
}

extern "C" void kokkosp_declare_output_type(
    const char *name,
    const size_t id,
    Kokkos::Tools::Experimental::VariableInfo *info)
{
  remember_name(name, info);
  associate_candidates(id, info);
}
'''))
rf("g-kokkos-count-ints", (_K, '''      return 1 + ((((!in.openUpper) ? in.upper.int_value
                                    : (in.upper.int_value - 1)) -
                   ((!in.openLower) ? in.lower.int_value
                                    : (in.lower.int_value + 1))) /
                  in.step.int_value);''', '''    {
      auto last = in.upper.int_value;
      auto first = in.lower.int_value;
      if (in.openUpper) --last;
      if (in.openLower) ++first;
      return (last - first) / in.step.int_value + 1;
    }'''))
