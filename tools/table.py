REGION = ["src/Region.cpp", "include/apollo/Region.h"]

prop("C01", "An execution gets its model's choice for its own features",
     "For every execution of a region, asking for the policy asks that region's own model exactly once, with exactly "
     "the feature values given for this execution in the order they were given, and the model's answer is both "
     "returned to the caller and remembered as the policy of this execution. A new execution starts with no features "
     "(or exactly the ones passed when it began), has its own number and a started timer, and no feature of an earlier "
     "execution leaks into it. No model modifies the features it is asked about.",
     ["inputs", "histories", "configurations"],
     "all feature vectors, all interleavings of executions of a region, all timing kinds and build configurations",
     "The tests run a handful of fixed feature vectors with the synchronous timer and only look at aggregate results.",
     REGION + ["src/models"],
     [("getPolicyIndex asks the model and records the answer", "Apollo::Region::getPolicyIndex"),
      ("begin resets the context", "Apollo::Region::begin"), ("setFeature appends", "Apollo::Region::setFeature")])

prop("C02", "Every finished execution is recorded exactly once as measured",
     "When an execution ends, one measurement consisting of its own features, its own chosen policy and its metric "
     "(the value the caller passed, otherwise the time of its own timer read after stopping it) enters the data of its "
     "own region exactly once, provided data sets are persistent or the model can still be trained, and not at all "
     "otherwise. An asynchronous execution that is not finished yet stays pending, is examined again at the next end, "
     "and is recorded, counted and released exactly once when it completes, and not used afterwards; the end of a region's life waits for all "
     "of them before it stores its data. The global number of finished executions grows by exactly one for each.",
     ["inputs", "histories", "schedules", "configurations"],
     "all sequences of ended executions, all orders in which asynchronous timers complete, all settings",
     "Asynchronous completion orders depend on a device the tests do not have; the tests never compare the recorded "
     "data with the executions.",
     REGION,
     [("collectContext inserts, counts and frees", "Apollo::Region::collectContext"),
      ("collectPendingContexts drains", "Apollo::Region::collectPendingContexts"),
      ("end stops and reads the timer", "Apollo::Region::end"), ("the destructor drains and stores", "Apollo::Region::~Region")])

prop("C03", "A data set keeps one running average per features and policy",
     "Inserting a measurement whose feature vector and policy are new stores its metric unchanged; inserting one for a "
     "pair already present replaces the metric by the mean of the stored and the new value; no other entry changes. "
     "Merging another data set inserts each of its entries once by the same rule and leaves the source as it was. Size, "
     "export and clear report or remove exactly the stored entries.",
     ["inputs", "histories"], "all sequences of insertions and merges",
     "The tests do not inspect data sets at all.",
     ["src/Dataset.cpp", "include/apollo/Dataset.h"],
     [("insert averages", "Apollo::Dataset::insert"), ("export", "Apollo::Dataset::toVectorOfTuples")])

prop("C04", "What is learnt is the policy with the least metric per features",
     "Training a decision tree, a random forest or a data-set map uses, for each feature vector in the data, exactly "
     "one example: a policy whose recorded metric for that vector is smallest among all policies recorded for it. All "
     "entries of the given data are considered and none is changed. A data-set map answers a known feature vector with "
     "that policy and never answers for an unknown one.",
     ["inputs", "histories"], "all data sets",
     "The tests use one synthetic data set per model and accept any index.",
     ["src/Dataset.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/models/DatasetMap.cpp"],
     [("minimum search", "Apollo::Dataset::findMinMetricPolicyByFeatures"), ("training", "apollo::DecisionTree::train"),
      ("training", "apollo::RandomForest::train"), ("lookup", "apollo::DatasetMap::getIndex")])

prop("C05", "Exploring models cycle, draw in range, stay constant, or replay",
     "For every number of policies, the round-robin model answers 0, 1, ..., last, 0, 1, ... in order without skipping or "
     "repeating; the random model draws from exactly the policies of the region, first to last inclusive; the static "
     "model always answers the configured policy; the optimal model replays the comma-separated numbers of its file in "
     "order, each once, and stops the program when they run out. Features, training, loading and storing do not "
     "influence these answers.",
     ["inputs", "histories"], "all policy counts, all call sequences",
     "The tests run a few cycles with one policy count and do not look at the drawn range.",
     ["src/models/RoundRobin.cpp", "src/models/Random.cpp", "src/models/Static.cpp", "src/models/Optimal.cpp"],
     [("next policy", "apollo::RoundRobin::getIndex"), ("range of the draw", "apollo::Random::Random"),
      ("constant", "apollo::Static::getIndex"), ("replay queue", "apollo::Optimal::getIndex")],
     note=NOTE + " The round-robin cycle is decided by induction: first answer 0, and the answer after a step is the "
     "successor of the answer before it.")

prop("C06", "Learning models explore until trained or loaded, then only predict",
     "A decision tree or random forest model asks its configured explorer for every choice until it has been trained or "
     "loaded once, and from then on asks only its own predictor, always about the features it was given, and returns that "
     "answer unchanged. It reports being trainable exactly in the first phase, a model created from a file is in the "
     "second phase from the start, storing changes nothing, and the configured depth and number of trees reach the "
     "predictor. A policy net stays trainable through training, loading and storing.",
     ["histories", "inputs", "configurations"], "all histories of choose, train, load and store; with and without OpenCV",
     "The tests never load a model and only train once per region.",
     ["src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/models/PolicyNet.cpp"],
     [("phase switch", "apollo::DecisionTree::getIndex"), ("phase switch", "apollo::RandomForest::getIndex"),
      ("phase flag", "apollo::DecisionTree::isTrainable")])

prop("C07", "A learned decision tree separates its examples within its depth",
     "A decision tree is built from exactly the examples of the latest training (earlier examples, policies and trees are "
     "forgotten) and answers only policies that occur among them. A node above the configured maximum depth whose samples "
     "have different policies is split, never below that depth; each split is the one of least weighted Gini impurity over "
     "all features and all gaps between distinct values, and its threshold lies above every value of the left samples and "
     "not above any value of the right samples, also after rounding. Answering descends left exactly when the node's "
     "feature is less than its threshold and answers the most frequent policy of the leaf reached. So, depth permitting, "
     "every training example is answered with its own policy. With JIT compilation the compiled function is generated from "
     "the current tree, compares with exact thresholds, and is the one called; different trees never share code.",
     ["inputs", "histories", "configurations"], "all training sets, depths and feature vectors; interpreted and JIT trees",
     "The tests train on a few points with well separated integers and never check splits, depth or the compiled code.",
     ["src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/DecisionTreeImpl.h"],
     [("construction", "DecisionTreeImpl::train"), ("split search", "DecisionTreeImpl::split"), ("descent", "DecisionTreeImpl::predict"),
      ("generated code", "DecisionTreeImpl::generate_source")],
     note=NOTE + " The split search is decided on the gated accumulators of its two nested loops; the impurity is compared "
     "with the weighted Gini impurity as a rational function. Rounding of impurities to float is not modelled.")

prop("C08", "A random forest is rebuilt from resampled examples and answers by majority",
     "Training a random forest yields exactly the configured number of trees, all built now (trees of an earlier training "
     "are gone), each with the forest's depth and policy count. Each tree learns from as many samples as there are "
     "examples, every sample drawn afresh and independently per tree from the whole set of examples, and always with the "
     "policy that belongs to its features. Answering asks every tree once about the given features, counts one vote per "
     "answer from zero, and returns a policy with the most votes.",
     ["inputs", "histories", "configurations"], "all training sets, sizes and feature vectors; interpreted and JIT trees",
     "The test only checks that a forest predicts something on one small set.",
     ["src/models/impl/RandomForestImpl.cpp"],
     [("resampling", "RandomForestImpl::train"), ("vote", "RandomForestImpl::predict")])

prop("C11", "Training trains a trainable model once on all data collected for it",
     "Training a region does nothing when its model cannot be trained (unless forced); otherwise it first collects the "
     "finished pending executions if asked to, and then, if there is any data, trains the region's own model exactly once "
     "on the region's whole data, which stays as it was. With stored models enabled the trained model is stored exactly once per step and once "
     "as the latest, under names that keep regions, ranks and steps apart and under which a region with the load option "
     "finds it again. Training everything first gathers the data of all ranks when training is collective; then each "
     "region is trained once with the same step and request, or, with a single shared model, every trainable model is "
     "trained once on the union of all regions' data. Training a region on its own with a shared model is refused.",
     ["inputs", "histories", "configurations"], "all settings, all sets of regions and data",
     "The tests train a single region with default settings.",
     REGION + ["src/Apollo.cpp"],
     [("gate", "Apollo::Region::train"), ("all regions", "Apollo::train")])

prop("C12", "Automatic training fires exactly at its triggers and never recurses",
     "After an execution has been recorded and counted, and only if the model can still be trained: all regions are "
     "trained when the global period is set and divides the number of executions; otherwise the region is trained when "
     "its own period is set and divides its execution number, or when the minimum amount of training data is set and "
     "reached; nothing is trained otherwise and never twice for one execution. Automatic training never collects pending "
     "executions (so it cannot trigger itself), and a region that is being destroyed never trains the other regions. Data "
     "restored at construction counts for these triggers.",
     ["inputs", "histories", "configurations"], "all periods, thresholds and histories of executions",
     "The tests do not set the periods; re-entry needs pending asynchronous executions.",
     REGION,
     [("triggers", "Apollo::Region::autoTrain"), ("end of life", "Apollo::Region::~Region")])

prop("C09", "A stored dataset loads back as the same dataset",
     "What storing a dataset writes is exactly what loading it expects, for every number of entries and features: loading "
     "a stored dataset inserts every stored measurement once, with the same features in the same order, the same policy "
     "and the same metric (numbers are written with enough digits to be read back unchanged). A region whose dataset is "
     "persistent looks on construction for the file a region of the same name and rank wrote on destruction, which holds "
     "nothing of what was in it before. The dataset "
     "files produced by src/python/modeling/create-dataset.py follow the format that loading expects.",
     ["inputs", "histories"], "all datasets (any number of entries and features, any values); every region name and rank",
     "Round trips depend on every number of entries and features and on the digits of the values; tests only load one file.",
     ["src/Dataset.cpp", "src/python/modeling/create-dataset.py"] + REGION,
     [("writer", "Apollo::Dataset::store"), ("reader", "Apollo::Dataset::load"), ("file name", "Apollo::Region::~Region")])

prop("C10", "A stored model loads back as the same model",
     "What storing a decision tree, a random forest or a policy network writes is exactly what loading it expects: "
     "loading restores the configuration, every tree, the whole structure of its nodes, each node's feature, threshold "
     "and decision, and every weight and bias, unchanged and each in its own place, and discards what the model held "
     "before (including cached answers). No model that training can produce is rejected. Storing replaces the named file, loading reads it, "
     "and a file that cannot be opened is reported and not ignored. A model built from a file is not trainable.",
     ["inputs", "histories", "configurations"], "all models (any number of trees and depth, any network size), interpreted and JIT build",
     "A round trip has to hold for every tree shape and threshold; the tests store and load no model.",
     ["src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp",
      "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp"],
     [("tree", "DecisionTreeImpl::save"), ("tree", "DecisionTreeImpl::load"), ("forest", "RandomForestImpl::save"),
      ("forest", "RandomForestImpl::load"), ("network", "apollo::PolicyNet::store"), ("network", "apollo::PolicyNet::load")])

prop("C14", "Settings come from their environment variables; contradictions are refused; directories exist before use",
     "Each setting takes the value of the environment variable of its own name (numbers parsed as numbers, a value that is "
     "not a number being refused), or its default when the variable is not set (Static,policy=0; local training and region "
     "models on; collective training and a single model off; no training periods; no tracing, storing or retraining; "
     "retrain thresholds 2.0 and 0.5; directories .apollo, datasets, traces and models). Settings with both or neither of "
     "local and collective training, both or neither of single and region model, or collective training without MPI end "
     "the program before anything is created; all other settings are accepted. The output directory is made, and in it the "
     "directories of datasets, traces and models when these are going to be written; a directory that already exists is "
     "fine and any other failure to make one is reported.",
     ["inputs", "configurations"], "all values of all environment variables; serial and MPI build",
     "The tests run with the default environment only.",
     ["src/Apollo.cpp", "src/Config.cpp", "include/apollo/Config.h"],
     [("settings", "Apollo::Apollo")])

prop("C15", "A model specification yields exactly the model it describes",
     "A specification is the model's name up to the first comma followed by comma separated parameters, each a key with "
     "a value after its first '=' or a key alone. A parameter the named model does not have is refused (Static: policy; "
     "DecisionTree: max_depth, explore, load, load-dataset; RandomForest: also num_trees; PolicyNet: lr, beta, beta1, "
     "beta2, threshold, load, load-dataset; StaticRegion: any; the others none), and so is an unknown model. The model "
     "made is the one named, carries that name, chooses among the given number of policies and uses the given parameter "
     "values, and the documented defaults for the others (policy 0, depth 2, 10 trees, lr 0.01, beta 0.5, beta1 0.5, "
     "beta2 0.9, threshold 0); a negative Static policy is refused. DecisionTree and RandomForest explore with the "
     "requested model, by default RoundRobin, over the same policies. Only DecisionTree, RandomForest and PolicyNet are "
     "ever trainable, and new ones are. A model requested from a file is made from that file or refused.",
     ["inputs", "configurations"], "all specifications (any number of parameters), all numbers of features and policies; own and OpenCV trees",
     "The tests use one specification per model.",
     ["src/ModelFactory.cpp"] + REGION,
     [("parsing", "Apollo::Region::parsePolicyModel"), ("factory", "apollo::ModelFactory::createPolicyModel")])

prop("C13", "Collective training: every rank receives every measurement once, unchanged, in the region of its name",
     "With collective training every rank takes part in the exchange unconditionally, whatever data it has. Every "
     "measurement of every region of a rank is sent exactly once, as the rank, the number of features, the features, the "
     "policy, the region's name and the metric, and is received with the same types and counts in the same order. "
     "Measurements of other ranks are inserted once and unchanged in the local region of that name if there is one; a "
     "rank's own measurements are not inserted again. The buffers are large enough for what is packed in them, each "
     "rank's part is received at the place where the parts of the ranks before it end, everything received is unpacked, "
     "and the buffers are freed once. Rank and size are those of the duplicated communicator, and 0 and 1 without MPI, "
     "where a collective exchange is refused.",
     ["inputs", "schedules", "configurations"], "all numbers of ranks, regions, measurements and features; MPI and serial build",
     "The tests run one rank; message sizes and contents vary with the data of every rank.",
     ["src/Apollo.cpp", "src/Region.cpp"],
     [("exchange", "Apollo::gatherCollectiveTrainingData"), ("packing", "Apollo::packMeasurements"), ("training", "Apollo::train")])

prop("C21", "A region starts with the name, model and data asked for, or the program ends",
     "A new region has the given number of features and policies and training threshold, no executions yet, and its name "
     "(cut to the 63 characters that fit, always terminated). Its model is the one its specification describes, or "
     "APOLLO_POLICY_MODEL when the specification is empty; StaticRegion means a Static model with the policy given under "
     "the region's own name, and ends the program if there is none. A model file given to the constructor is loaded; the "
     "load parameter loads the given file or, when empty, the latest model that training stored for this model, rank and "
     "region; Optimal loads opt-<region>-rank-<rank>.txt; a missing file ends the program. A persistent dataset is "
     "restored if there is one and starts empty otherwise; load-dataset and DatasetMap require the region's stored "
     "dataset, end the program if it is missing or empty, and train with it once it is loaded. Otherwise nothing is loaded "
     "or trained. The region is registered under its name and other regions stay registered as they are.",
     ["inputs", "configurations"], "all region names, specifications, files present or not, ranks and settings",
     "The tests create regions with two specifications and no files.",
     REGION, [("constructor", "Apollo::Region::Region"), ("stored models", "Apollo::Region::train")])

prop("C18", "The policy and best-policies traces report the decisions that were taken",
     "With APOLLO_TRACE_POLICY, and only then, every policy a region takes from its model adds one line with the rank, the "
     "region, the model, all features of that execution (as integers, in order) and the policy that is returned, to "
     "standard output and, appended, to rank-<rank>-policies.txt. With APOLLO_TRACE_BEST_POLICIES, and only then, every "
     "training of a region's model on its own data first reports, under a line with the rank and the region, every "
     "feature vector of the region's dataset once, with the best policy the dataset has for it and that policy's metric, "
     "to standard output and to step-<step>-rank-<rank>-<region>-best_policies.txt.",
     ["inputs", "histories", "configurations"], "all feature vectors, policies, datasets, ranks, steps and settings",
     "The tests do not enable these traces.",
     REGION, [("policy trace", "Apollo::Region::getPolicyIndex"), ("best policies", "Apollo::Region::train")])

prop("C19", "The CSV traces have one well formed line per execution",
     "With APOLLO_TRACE_CSV, and only then, every finished execution adds exactly one line to the trace of its region and "
     "one to the global trace of its rank. A region's trace starts with a header naming the columns, one per feature "
     "(f0, f1, ...), and every line has, separated by single blanks and in the order of the header, the rank, the model's "
     "name, the region's name, the index of the execution, its features, its policy and its metric. A line of the global "
     "trace has the time, the region, the index, the model and the policy. Each region (and model specification) and each "
     "rank has a file of its own in the traces directory, begun anew by each run, and a file that cannot be opened ends the program. The columns "
     "src/python/modeling/create-dataset.py takes as features are the feature columns.",
     ["inputs", "histories", "configurations"], "all executions, numbers of features, ranks and settings",
     "The tests do not enable tracing.",
     REGION + ["src/Apollo.cpp", "src/python/modeling/create-dataset.py"],
     [("lines", "Apollo::Region::end"), ("header", "Apollo::Region::Region"), ("global trace", "Apollo::Apollo")])

prop("C16", "A policy network draws from its current network's probabilities and learns from every measurement",
     "Asked for a policy, a PolicyNet model draws once, from the numPolicies probabilities its network gives for these "
     "features, encoded as the 64 bits of each feature in order (bit c of feature r is input 64 r + c); probabilities are "
     "reused only for features with the same encoding and only until the next training, and asking changes nothing else. "
     "While the debiased reward average is below the threshold the answer is policy 0. Training with data makes one "
     "example per measurement: the same encoding of its features, its policy, and exp(-metric) minus the debiased moving "
     "average of the batch rewards, which is updated first; the network takes one training step on the whole batch exactly "
     "when that average is not below the threshold; training without data changes nothing. The network has 64 inputs per "
     "feature and one output per policy. Arrays handed to the network are as large as what is stored in them and are "
     "freed exactly once.",
     ["inputs", "histories"], "all features, data sets, thresholds and training histories",
     "The tests look at which policy is drawn after training on one data set.",
     ["src/models/PolicyNet.cpp", "include/apollo/models/PolicyNet.h"],
     [("asking", "apollo::PolicyNet::getIndex"), ("training", "apollo::PolicyNet::train"), ("construction", "apollo::PolicyNet::PolicyNet")],
     note="Whether the network learns well is not claimed.")

prop("C17", "A damaged dataset or model file is rejected, never misread",
     "Reading a dataset, decision tree or random forest file, every token is either compared with what the format demands "
     "or converted to a number: a missing, misspelt or extra keyword, bracket or separator ends the program or throws, text "
     "that is no number throws, and the reader has seen the closing bracket before it returns, so a truncated file is never "
     "accepted. A token is taken whole: it ends at white space only, one that does not fit the token buffer ends the program, "
     "and no access leaves the buffer. After a number the rest of the same token is what is compared next. A tree node "
     "whose class or feature does not exist is rejected.",
     ["inputs"], "all contents of the files",
     "The tests read only files the library wrote.",
     ["src/helpers/Parser.cpp", "src/helpers/Parser.h", "src/Dataset.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp"],
     [("tokens", "Parser::getNextToken"), ("comparison", "Parser::parseExpected"), ("dataset", "Apollo::Dataset::load"),
      ("tree", "DecisionTreeImpl::parse_node"), ("forest", "RandomForestImpl::load")],
     note="The running number of a tree's data entries is skipped by the reader and not part of the claim; the binary file of "
          "a policy network is not claimed.")

prop("C22", "The C interface and the calls without a context do exactly what the C++ calls do",
     "__apollo_region_create makes one region with exactly the given number of features, name, number of policies, minimum "
     "amount of training data and model, and returns it. begin, end, set_feature, get_policy and train of the C interface "
     "make exactly the one corresponding call on the region they are given: begin starts a synchronously timed execution "
     "without features, end ends the current execution by its timer, set_feature adds exactly the value given, get_policy "
     "returns the policy chosen, train collects pending executions and does not force training. end, setFeature and "
     "getPolicyIndex without a context mean the execution begun last; flushAllRegionMeasurements trains, collecting pending "
     "executions.",
     ["inputs", "histories"], "all arguments and all sequences of calls",
     "No test uses the C interface.",
     ["src/Apollo.cpp", "src/Region.cpp", "include/apollo/Apollo.h"],
     [("creation", "__apollo_region_create"), ("policy", "__apollo_region_get_policy"), ("training", "__apollo_region_train"),
      ("no context", "Apollo::Region::end")])

prop("C23", "Timers measure the seconds of the steady clock between start and stop",
     "The metric of an execution timed by the synchronous timer is, in seconds, the reading of the system's steady wall "
     "clock at its end minus the reading at its start, to the nanosecond; such a timer is always done once stopped, and "
     "asking again gives the same. A device timer records one event at start and another at stop in the same stream, is "
     "done exactly when the device reports the time between its own two events, gives that time in seconds, is not done "
     "while the device is not ready, and any other error of the device ends the program; its events are created once and "
     "destroyed once. Each kind of timer asked for is the kind created.",
     ["inputs", "schedules", "configurations"], "all clock readings, device answers and build configurations",
     "Clock readings cannot be chosen by a test; the device timers are never built by the tests.",
     ["src/timers/TimerSync.cpp", "src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp", "include/apollo/Timer.h"],
     [("synchronous", "TimerSync::isDone"), ("CUDA", "TimerCudaAsync::isDone"), ("HIP", "TimerHipAsync::isDone")],
     note="Accuracy and overhead of the clock itself are not claimed.")

prop("C24", "One runtime per process, which finishes every region exactly once",
     "Every call of Apollo::instance gives the same runtime, which starts with no executions counted and knows its rank and "
     "the number of ranks (0 and 1 without MPI). When it ends, every registered region is ended exactly once; the global "
     "trace stays open and the number of executions is reported only after that, so that executions still pending are "
     "traced and counted; a region's trace and data are closed and stored only after its pending executions are "
     "collected. With APOLLO_STORE_EXEC_INFO, and only then, apollo_exec_info.csv in the output directory gets one line "
     "\"name, executions begun\" for every region and nothing else.",
     ["histories", "configurations"], "all sets of regions and settings",
     "The tests never look at what happens when the program ends.",
     ["src/Apollo.cpp", "src/Region.cpp", "include/apollo/Apollo.h"],
     [("end", "Apollo::~Apollo"), ("start", "Apollo::Apollo"), ("region", "Apollo::Region::~Region")])

prop("C25", "Tracing and storing only observe",
     "Whether APOLLO_TRACE_CSV, APOLLO_TRACE_POLICY, APOLLO_TRACE_BEST_POLICIES, APOLLO_TRACE_ALLGATHER, APOLLO_TRACE_RETRAIN, "
     "APOLLO_STORE_MODELS or APOLLO_STORE_EXEC_INFO are set has no influence on anything but the files and text they "
     "produce, provided the files can be opened: the same models are asked, with the same features, equally often; the same "
     "policies are returned; the same measurements are recorded and exchanged; the same executions are collected; and the "
     "same training happens at the same times with the same data. No model looks at these settings.",
     ["inputs", "histories", "configurations"], "all combinations of the settings, all inputs",
     "A test runs one configuration at a time and never compares two.",
     REGION + ["src/Apollo.cpp", "src/models"],
     [("choice", "Apollo::Region::getPolicyIndex"), ("end", "Apollo::Region::end"), ("training", "Apollo::Region::train"),
      ("exchange", "Apollo::gatherCollectiveTrainingData")])

prop("C20", "The policy network computes its forward pass, policy gradient and Adam step for every shape and batch",
     "For every batch size and layer shape: a fully connected layer gives W x + b per row; ReLU keeps positive inputs and "
     "zeroes negative ones, and passes gradients likewise; softmax gives exp(x - max) over the row's sum; the loss "
     "gradient is reward (1[chosen] - probability) / batch; the backward pass of a layer sums the gradients of weights, "
     "bias and inputs over the batch, starting from zero; Adam updates every weight and bias once with bias corrected "
     "moments. The forward pass chains the three layers, and a training step runs forward, backward with the activations "
     "of that forward pass, then updates all three layers. No element outside an array is read or written, buffers are "
     "replaced whenever the batch outgrows them, and every array is freed exactly once.",
     ["inputs"], "all batch sizes, layer shapes, weights, inputs, actions and rewards",
     "The tests use one shape and check the drawn policy only.",
     ["src/models/PolicyNet.cpp"],
     [("layer", "apollo::FCLayer::forward"), ("gradients", "apollo::FCLayer::backward"), ("update", "apollo::FCLayer::step"),
      ("softmax", "apollo::Softmax::forward"), ("network", "apollo::Net::trainStep")],
     note="Real arithmetic; rounding is not modelled.")

prop("C26", "In the Kokkos connector every combination of candidates is one policy, and every tuned context one execution",
     "The candidates of a declared tuning variable are: for a set, its values in order; for an integer range, every lower + "
     "x step within the range, open bounds excluded; for a floating range, trunc((upper - lower) / step) values lower + "
     "x step (100 without a step); for a string range or an unbounded variable, none. Names are kept terminated. A request with no tuning "
     "variables, with a tuning variable without candidates, or with more than 50 variables changes nothing. Otherwise "
     "requests with the same number and the same ordered type ids of context and tuning variables share one region, "
     "made at the first of them with one feature per context variable and as many policies as there are combinations of candidates; a "
     "RandomForest is loaded exactly when training at step 0 by rank 0 has stored one for it. The features are the context values in order, given "
     "before the policy is asked for, once; tuning variable x gets its candidate (policy / product of the candidate counts before "
     "x) mod its count, so that different policies give different combinations. The execution is remembered by its "
     "context, ended exactly once when the context ends and then forgotten; unknown contexts are ignored. Every "
     "flush-interval-th end flushes all regions; a fence is asked for only if Kokkos provides one and some region is still "
     "exploring; settings are put into the environment before the runtime starts.",
     ["inputs", "histories"], "all variables, candidates, values, policies and sequences of contexts",
     "The connector is compiled into the library but no test calls it.",
     ["src/connectors/kokkos/kokkos-connector.cpp"],
     [("candidates", "kokkosp_declare_output_type"), ("request", "kokkosp_request_values"), ("end", "kokkosp_end_context"),
      ("start", "kokkosp_init_library")])
