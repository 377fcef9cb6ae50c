I_, H_, C_, F_ = "inputs", "histories", "configurations", "fault_sequences"
STR = "dhg/structure/base.py"

prop("S01", "No query sees a structure as it was before a mutation",
     "After any call that changes the connectivity, weights, self-loops, groups or vertex weights of a graph, directed graph, bipartite graph or hypergraph returns, every later query (edges, degrees, incidence/adjacency/Laplacian matrices, neighbours, message passing) is computed from the new state. No mutator may leave a previously computed value reachable by a later query, for the whole structure or for one hyperedge group.",
     [H_, I_], "every public mutator and setter, every control-flow path through it, every prior history of queries",
     "tests call few query-mutate-query sequences; a stale value needs a specific query before a specific mutator",
     [STR, G, DG, BG, HG], [("memo reset after raw-state writes", "_clear_cache callers in dhg/structure")])
prop("S02", "Repeated queries return what a first computation would return",
     "Querying the same property or the same query with the same arguments on an unchanged structure returns the same value whether or not it was queried before, and independently of which other queries (with other arguments, hop counts or group names) were made in between.",
     [H_, I_], "every memoised property/query of the four structure classes, every order of queries",
     "a wrong or colliding memo key only shows for particular query orders",
     [STR, G, DG, BG, HG], [("memo tables per structure and per group", "cache / group_cache users in dhg/structure")])
prop("S04", "Saving and reloading a structure preserves all of its state",
     "For every graph, directed graph, bipartite graph and hypergraph, exporting the state and rebuilding from it, or saving to a file and loading it (by the class or by the generic loader), yields an object of the same class with the same vertex counts, edges, edge weights, self-loops, hyperedge groups, directional weights and vertex weights.",
     [I_], "every structure state; every field that any query depends on",
     "round-trip tests compare a few fields of small default-weighted structures",
     [STR, G, DG, BG, HG, "dhg/structure/__init__.py"], [("state_dict / from_state_dict / save / load", "the four structure classes"), ("load_structure", "dhg/_global.py or dhg/structure")])
prop("S05", "Derived copies are complete and share no mutable state with the source",
     "A clone carries over the complete state of its source (vertices, weighted edges, self-loops, groups, vertex weights), and no later mutation of the copy, or of a graph obtained by dropping edges/hyperedges, or rebuilt from exported state, can change the source, nor the other way round.",
     [H_, I_], "every structure class, every copy-like operation, every later mutation of either object",
     "tests check equality right after copying, not isolation under every later mutator",
     [G, DG, BG, HG], [("clone, drop_edges, drop_hyperedges, from_state_dict", "the four structure classes")])
prop("S06", "Queries and conversions leave the structure unchanged",
     "Queries, message passing, format conversions, neighbourhood/Laplacian computations, cloning, edge dropping and drawing never change the raw state (vertices, edges, weights, self-loops, groups, vertex weights) of the structure they are invoked on or of a structure passed as argument, on any path; and no operation changes a list or dict its caller passed in. (Materialising omitted default vertex weights is not a change.)",
     [I_, H_], "every non-mutating public member of the four structure classes and every structure-typed argument, all paths",
     "tests rarely compare the full state of the source before and after a query",
     [STR, G, DG, BG, HG], [("working on a clone before temporary edits", "L/L_sym/L_rw/L_GCN, clone users")])
prop("S07", "Moving a structure to a device moves every tensor it later hands out",
     "After moving a structure to a device, every tensor-valued query returns tensors on that device, whether they were computed before or after the move; freshly built matrices are created on the structure's current device.",
     [H_, C_], "every memoised tensor of the four structure classes, any query history before the move, any device",
     "the test machine has only one device, so a tensor left behind is invisible",
     [STR, G, DG, BG, HG], [("to() over the table of device-resident keys", "vars_for_DL in dhg/structure")])
prop("S08", "An undirected edge or a hyperedge has one identity regardless of vertex order",
     "In undirected graphs and hypergraphs an edge given with its vertices in any order is the same edge: adding, merging and removing it resolve to the same stored edge and it is stored and reported once. In directed and bipartite graphs the order of the two endpoints is preserved.",
     [I_, H_], "every vertex order of every (hyper)edge over add/remove/construct operations",
     "tests use a handful of orders and rarely add and remove with different ones",
     [G, DG, BG, HG, "dhg/structure/base.py"], [("edge/hyperedge canonicalisation", "_format_e / _hyperedge_code / add / remove")])
prop("S09", "Duplicate edges are merged exactly as the chosen merge operation says",
     "Adding an edge that already exists combines the stored and the new weight by the selected operation (mean: arithmetic mean, sum: sum, max: maximum) and never creates a second copy; adding a new edge stores exactly the given weight (1 by default) and leaves all other edges as they were. Removing edges removes exactly the named ones, and the self-loop switches change nothing but the self-loops they are named for.",
     [I_, H_], "every edge list with repetitions, every weight, every merge operation, self-loops included",
     "tests sample one or two duplicate patterns per class",
     [G, DG, BG, HG, "dhg/structure/base.py"], [("merge of weights on add", "_add_edges / _merge_hyperedges")])
prop("S10", "Incidence, adjacency, degree, neighbour and weight queries follow from the edges",
     "For every structure the incidence/adjacency matrices contain exactly the stored edges (both directions for undirected graphs, transposes consistent, self-loops when enabled), degree matrices and degree lists are the corresponding weighted row sums, diagonal weight matrices carry the edge/vertex weights in edge order, and neighbour queries return exactly the vertices/hyperedges adjacent in those matrices.",
     [I_], "every structure state, every vertex/hyperedge index and group",
     "tests check small concrete instances; agreement for every weighted structure is not sampled",
     [G, DG, BG, HG], [("A/B/H/D_*/W_*/deg_*/N_*/nbr_* members", "the four structure classes")])
prop("S11", "Laplacians equal their defining formulas",
     "The combinatorial Laplacian equals D - A, the symmetric normalised one I - D^-1/2 A D^-1/2, the random-walk one I - D^-1 A (self-loops excluded), the GCN matrix (D+I)^-1/2 (A+I) (D+I)^-1/2 for graphs and bipartite graphs; for hypergraphs the symmetric, random-walk and HGNN Laplacians equal I - Dv^-1/2 H W De^-1 H^T Dv^-1/2, I - Dv^-1 H W De^-1 H^T and Dv^-1/2 H W De^-1 H^T Dv^-1/2, globally and per group.",
     [I_], "every weighted structure, with and without self-loops and isolated vertices, every group",
     "tests compare a few random structures for the symmetric part and default weights",
     [G, BG, HG, "dhg/utils/sparse.py"], [("L, L_sym, L_rw, L_GCN, L_HGNN", "graph.py, bipartite_graph.py, hypergraph.py")])
prop("S12", "Isolated vertices and empty hyperedges never inject infinities",
     "Every matrix of inverse (or inverse square-root) degrees has 0 where the degree is 0, so that Laplacians, smoothing and mean aggregation are finite for isolated vertices and empty rows.",
     [I_], "every structure with zero-degree vertices or hyperedges; every inverse-degree matrix and everything built from it",
     "an infinity needs an isolated vertex together with the one formula that lost its guard",
     [G, DG, BG, HG], [("inf -> 0 guards", "D_*_neg_1, D_*_neg_1_2 members")])
prop("S13", "Message passing computes the documented aggregation",
     "For graphs, directed and bipartite graphs and hypergraphs, propagation with sum, mean and softmax_then_sum equals multiplication of the features by the incidence/adjacency matrix of the requested direction (mean: divided by the neighbour count / degree; hyperedge weights applied after vertex-to-hyperedge aggregation), custom edge weights replace the stored ones, softmax weights sum to one per receiver, and dropping is applied only when a positive rate is requested.",
     [I_, C_], "every structure, direction, aggregation, drop rate, custom weights present or absent",
     "tests cover some direction x aggregation x weights combinations on small structures",
     [G, DG, BG, HG], [("v2v, u2v, v2u, v2e, v2e_*, e2v, e2v_*", "the four structure classes")])
prop("S14", "Per-group hypergraph operations equal the global ones restricted to that group",
     "Every per-group query, matrix or message-passing operation of a hypergraph gives, for group g, what the corresponding global operation gives on the hypergraph that contains only the hyperedges of g.",
     [I_], "every hypergraph, every group, every paired operation",
     "tests cover few groups and rarely compare the pair",
     [HG], [("*_of_group members", HG)])
prop("S15", "Per-edge views are listed in one common edge order",
     "In every structure the edge list and the weight list returned with it refer to the same edge at the same position; the source and destination index vectors, the edge-weight vector and the custom edge weights consumed by message passing of one matrix share that matrix's entry order; and all views indexed by hyperedge (hyperedge list, weights, incidence columns, degrees, neighbours) use one group and hyperedge order.",
     [I_], "every structure; every pair of per-edge views",
     "tests mostly use uniform weights, which hide a permutation",
     [G, DG, BG, HG], [("e, e_weight, e_src/e_dst (e_u/e_v, v2e_*/e2v_*), e_weight argument of message passing", "the four structure classes")])
prop("S16", "Operations on an unknown hyperedge group are refused",
     "Every public hypergraph query on one named group rejects a name that is not one of the hypergraph's groups with an error and without changing or caching anything; removing or dropping from an absent group leaves the hypergraph as it was, and only adding hyperedges may create a group.",
     [I_], "every operation that takes a group name, every unknown name",
     "tests do not call every per-group operation with an unknown group",
     [HG, "dhg/structure/base.py"], [("group membership assertion", "*_of_group members")])
prop("S17", "Invalid arguments are rejected before the structure is touched",
     "Constructors and mutators reject non-positive vertex counts, vertex ids outside the vertex range, unknown merge operations, weights whose number differs from the edges', and queries reject unknown aggregation, direction, and non-positive hop counts with an error, leaving the structure unchanged.",
     [I_], "every documented invalid value of every validated parameter of the public structure API",
     "tests try very few invalid values",
     [STR, G, DG, BG, HG], [("assertions at the entry of constructors/mutators", "the four structure classes")])
prop("S18", "Conversions between structures build exactly the documented edges",
     "Conversions (from an adjacency list, star/clique expansion, from/to bipartite graph, from graph, k-hop neighbours of a graph or bipartite graph, from feature k-nearest-neighbours) produce a structure with the documented vertex count and exactly the documented edges and weights.",
     [I_], "every source structure and every parameter of each conversion",
     "tests compare a few small sources",
     [G, DG, BG, HG], [("from_*, get_clique_expansion, _e_list_from_*", "the four structure classes")])
prop("S20", "Feature smoothing uses the matching normalised matrix",
     "Every smoothing helper (GCN, HGNN and the generic Laplacian-based smoothing, global and per group) equals left-multiplying the features by its named matrix - generic smoothing as (X + lambda L X) or the documented form - and applies edge dropping only when a positive drop rate is given, without modifying the structure or the input.",
     [I_, C_], "every structure, feature matrix, drop rate and lambda",
     "tests check default arguments only",
     [STR, G, BG, HG], [("smoothing, smoothing_with_GCN, smoothing_with_HGNN", "the structure classes")])
prop("S21", "A sub-hypergraph is the hypergraph restricted to the selected vertices",
     "Extracting a sub-hypergraph keeps, in every hyperedge group, exactly the hyperedges with at least one selected vertex (at least two when single-vertex hyperedges are not kept), restricted to the selected vertices and renumbered by ascending old index, each with its own hyperedge weight and the per-vertex weights of its remaining vertices; the result has the selected vertices' weights and the device of the source, the selection's order, repeats and container type do not matter, an empty or out-of-range selection is rejected, and neither the source nor the caller's selection is changed.",
     [I_, H_], "every hypergraph, group, selection and setting of keep_edges_with_only_one_nodes",
     "tests extract a few unweighted subsets of one hypergraph",
     [HG, STR], [("subgraph, _subgraph_filter_hyperedge", STR)])
prop("R01", "Random generators are reproducible from the library seed",
     "All randomness of the library's generators, edge dropping and dataset splitting is drawn from the random sources that the library's seed function seeds, so equal seeds and equal call sequences give equal results.",
     [H_, I_], "every random draw reachable from the public API",
     "a single unseeded source only shows as rare irreproducibility",
     ["dhg/random/_seed.py", "dhg/random/graphs", "dhg/random/hypergraphs", "dhg/random/feature.py", "dhg/utils/dataset_split.py"], [("set_seed", "dhg/random/_seed.py")])
prop("R02", "Fixed-size random generators produce exactly the requested edges or refuse",
     "Generators that take a number of edges produce exactly that many distinct valid edges, and a request that cannot be satisfied (more edges than exist) is rejected instead of running forever or returning fewer.",
     [I_], "every vertex count, every edge count up to and beyond the feasible maximum",
     "tests draw a few feasible sizes",
     ["dhg/random/graphs/graph.py", "dhg/random/hypergraphs/hypergraph.py"], [("Gnm rejection loops and feasibility assertions", "dhg/random")])
prop("R03", "Random generators only emit edges of the requested kind",
     "Generated graphs have no self-loops or duplicate edges, endpoints lie in range (directed generators may emit both orientations, bipartite ones connect the two sides), uniform hypergraph generators emit hyperedges of exactly k distinct vertices, and edge probability p keeps an edge with probability p.",
     [I_], "every size, probability and draw sequence",
     "a wrong range or inverted probability needs boundary draws to show",
     ["dhg/random/graphs/graph.py", "dhg/random/hypergraphs/hypergraph.py"], [("candidate enumeration and acceptance tests", "dhg/random")])
prop("R04", "Generated features are drawn around the class of each vertex",
     "normal_features returns one row per label and one column per distinct label (in sorted order), drawn from the normal distribution with the given standard deviation around the unit vector of the vertex's own label, for lists, arrays and tensors of labels, and refuses other types and shapes.",
     [I_], "every label list and noise level",
     "no test covers the function",
     ["dhg/random/feature.py"], [("normal_features", "dhg/random/feature.py")])
prop("M01", "Every registered metric is usable by the evaluators",
     "Every metric name an evaluator accepts resolves to the function of that name, each function accepts the arguments the evaluator passes (including the per-sample mode used for batch accumulation), and every documented metric is registered. Metrics configured together each keep their own function, parameters and result name.",
     [C_], "every evaluator x every metric name x every calling mode",
     "tests instantiate a few evaluators with default metrics",
     ["dhg/metrics/base.py", "dhg/metrics/classification.py", "dhg/metrics/retrieval.py", "dhg/metrics/recommender.py"], [("metric registries and evaluator dispatch", "dhg/metrics")])
prop("M02", "Batched evaluation accumulates every batch once and resets between epochs",
     "For validation and test, the epoch result is computed from exactly the batches added since the last epoch result, each counted once, and after reading an epoch result the accumulator starts empty; one-shot validate/test calls do not leak into it.",
     [H_], "every sequence of batch, epoch-result and one-shot calls",
     "tests run one epoch",
     ["dhg/metrics/base.py"], [("BaseEvaluator batch state", "dhg/metrics/base.py")])
prop("M03", "Metrics equal their definitions",
     "Retrieval, recommendation and classification metrics (accuracy, F1, confusion matrix, AP, mAP and the precision-recall curve; precision, recall, NDCG and reciprocal rank also at their cut-off k or ratio) compute the documented formula on every input, and the recommender metrics agree with the retrieval metrics of the same name.",
     [I_], "all score/label inputs, every k and ratio",
     "tests use a few fixed vectors",
     ["dhg/metrics/classification.py", "dhg/metrics/retrieval.py", "dhg/metrics/recommender.py"], [("metric functions", "dhg/metrics")])
prop("D01", "A downloaded or cached file is used only if its checksum matches",
     "Whenever a checksum is given, a file - freshly downloaded or found on disk - is returned or loaded only after its md5 was verified against it, and a corrupt file is never silently used.",
     [F_, I_], "every download/caching path, any corruption or partial download",
     "tests have no network and no corrupted caches",
     ["dhg/utils/download.py", "dhg/data/base.py"], [("check_file, download_and_check, download_file", "dhg/utils/download.py"), ("dataset file loading", "dhg/data/base.py")])
prop("D02", "Every dataset's content table can be loaded",
     "For every built-in dataset each declared item has complete loader information (files with checksums, an existing loader and preprocessors), refers only to declared files, and item names the library itself relies on are declared.",
     [C_], "every dataset x every declared item",
     "datasets need network, so no test loads them",
     ["dhg/data/base.py", "dhg/data/cora.py", "dhg/data/cooking_200.py"], [("content tables", "dhg/data/*.py")])
prop("D03", "Dataset items are loaded once and preprocessed in the declared order",
     "Reading a dataset item returns the loader's result with the declared preprocessors applied in declared order, exactly once per item; repeated reads return the same object; unknown item names are rejected.",
     [H_, I_], "every item kind (constant, lazily loaded, preprocessed), every order of reads",
     "tests do not load data",
     ["dhg/data/base.py"], [("BaseData item access", "dhg/data/base.py")])
prop("D04", "Interaction datasets yield valid triplets and exact masks",
     "In the training phase every sample of the user-item dataset is (user, positive, negative) with the pair being an interaction (the requested one in strict mode) and the negative never an item the user interacted with; in the test phase the mask hides exactly the training items and the truth marks exactly the test items; the length fits the phase.",
     [I_, H_], "every interaction list, user, mode and random draw",
     "tests draw a few samples",
     ["dhg/utils/dataset_wrapers.py"], [("UserItemDataset", "dhg/utils/dataset_wrapers.py")])
prop("D05", "Identifier remapping is a consistent bijection",
     "Remapping raw identifiers of edge lists, hyperedge lists and adjacency lists assigns consecutive ids from 0 without gaps or collisions, uses the same mapping everywhere, and preserves the incidence of every edge (the bipartite variants map the two sides separately).",
     [I_], "every raw edge/hyperedge/adjacency list",
     "tests use tiny examples",
     ["dhg/utils/structure.py"], [("remap_* helpers", "dhg/utils/structure.py")])
prop("D06", "Dataset splits are disjoint and of the requested size",
     "Splitting by number, ratio or category yields masks/sets that are pairwise disjoint, and each part contains exactly the requested number or fraction of samples (per category where requested).",
     [I_], "every label vector, count and ratio, every random draw",
     "tests sample a few label vectors",
     ["dhg/utils/dataset_split.py"], [("split_by_num, split_by_ratio, split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph", "dhg/utils/dataset_split.py")])
prop("D07", "Edge-list / adjacency-list helpers preserve edges",
     "Converting edge lists to adjacency lists and back preserves the set of (hyper)edges and their endpoints for every input, including vertices without edges.",
     [I_], "every edge list / adjacency list",
     "tests use tiny examples",
     ["dhg/utils/structure.py", "dhg/datapipe/loader.py"], [("edge_list_to_adj_list, edge_list_to_adj_dict, adj_list_to_edge_list", "dhg/utils/structure.py")])
prop("D08", "Feature preprocessing follows its definition without non-finite results",
     "Row normalisation (L1/L2/min-max, and the documented range transforms) divides every row by its own norm or range and maps zero rows to finite values, converters return the same data in the documented type, and composition applies its functions left to right.",
     [I_], "every feature matrix including zero and constant rows",
     "tests use random positive matrices",
     ["dhg/datapipe/normalize.py", "dhg/datapipe/common.py"], [("norm_ft, min_max_scaler, compose_pipes, to_tensor...", "dhg/datapipe")])
prop("N01", "The last layer of a model emits raw scores",
     "Every convolution layer applies activation, optional batch normalisation and dropout - in this order - only when it is not the last layer; on the last layer none of the three is applied.",
     [C_, I_], "every convolution layer x is_last x use_bn x drop_rate",
     "most convolution layers have no tests",
     ["dhg/nn/convs/graphs/gcn_conv.py", "dhg/nn/convs/hypergraphs/hgnn_conv.py"], [("is_last branch", "dhg/nn/convs")])
prop("N02", "Convolution layers compute their published propagation rule",
     "The forward pass of each graph/hypergraph convolution equals its documented formula over the structure passed in (linear transform with the configured bias, then the documented propagation: GCN, GraphSAGE, GAT, GIN, HGNN, HGNN+, HyperGCN, HNHN, UniGCN, UniGAT, UniSAGE, UniGIN, JHConv), using the supplied structure of this call.",
     [I_, C_], "every layer, structure, features and hyper-parameter combination",
     "most convolution layers have no tests",
     ["dhg/nn/convs/graphs/gcn_conv.py", "dhg/nn/convs/hypergraphs/hgnn_conv.py"], [("forward methods", "dhg/nn/convs")])
prop("N03", "Model hyper-parameters reach the layers they configure",
     "Every constructor argument of every model and layer takes effect where documented: channel sizes chain from input through hidden to class count, dropout, batch-norm, head and epsilon arguments are passed to the layers, exactly one final layer is marked last, and every layer is registered and applied in order in the forward pass.",
     [C_], "every model constructor argument",
     "models have no tests",
     ["dhg/models/graphs/gcn.py", "dhg/models/hypergraphs/hgnn.py"], [("model constructors and forwards", "dhg/models")])
prop("N04", "Inference is deterministic",
     "In evaluation mode the forward pass of every model and layer involves no random draw: dropout, edge dropping and any sampling is active only in training mode, apart from the random projection with which HyperGCN picks its representative vertex pairs.",
     [C_, H_], "every model/layer forward in evaluation mode, every drop setting",
     "models have no tests",
     ["dhg/models/graphs/gcn.py", "dhg/models/hypergraphs/unignn.py", "dhg/nn/convs/hypergraphs/unignn_conv.py"], [("self.training guards and nn.Dropout modules", "dhg/models, dhg/nn")])
prop("N05", "A forward pass depends only on its arguments and parameters",
     "Running a model or layer on one structure never influences a later forward pass on another structure or other features: layers keep no per-call state besides parameters and normalisation statistics, and never modify the structure or the input features (HyperGCN's documented fast mode, which keeps the first structure's graph, excepted).",
     [H_], "every sequence of forward calls with different structures",
     "tests call each layer once",
     ["dhg/models/hypergraphs/hypergcn.py", "dhg/nn/convs/hypergraphs/hypergcn_conv.py"], [("forward methods", "dhg/models, dhg/nn")])
prop("N06", "Losses and regularisers equal their definitions",
     "The BPR loss equals the mean of -log sigmoid(positive - negative) (softplus of the difference), and the embedding regulariser the sum over its arguments of the p-norm to the p divided by the batch size as documented.",
     [I_], "all score and embedding tensors",
     "only the regulariser has a test with few shapes",
     ["dhg/nn/loss.py", "dhg/nn/regularization.py"], [("BPRLoss, EmbeddingRegularization", "dhg/nn")])
prop("N07", "Cascaded training trains one layer after the other on its own objective",
     "Training a BGNN model with train_with_cascaded trains the layers in order, each on the outputs of the layers trained before it: the adversarial model alternates a discriminator step on real and detached generated features with a generator step against the discriminator, the MLP model minimises the mean squared reconstruction error of layer and decoder; each step starts from zeroed gradients and changes only the parameters of the layer at hand and its discriminator or decoder, with the given learning rate, weight decay and number of epochs; the representations handed on are computed without gradient tracking, decoders in evaluation mode.",
     [H_, C_], "every feature matrix and bipartite graph, every depth and number of epochs",
     "cascaded training has no tests",
     ["dhg/models/graphs/bgnn.py"], [("train_with_cascaded, train_one_layer", "dhg/models/graphs/bgnn.py")])
prop("E01", "Training steps and evaluation never interfere",
     "Each training step zeroes gradients, back-propagates the loss of that step and steps the optimiser in this order in training mode; validation and testing run in evaluation mode without gradient tracking and never update parameters.",
     [H_, C_], "every task class, every epoch sequence",
     "experiments have no tests",
     ["dhg/experiments/base.py", "dhg/experiments/vertex_classification.py", "dhg/experiments/recommender.py"], [("train / validate / test methods", "dhg/experiments")])
prop("E02", "The reported model is the best validated one",
     "The model kept by an experiment is a snapshot of the parameters at the epoch with the best validation score so far, unaffected by later training, and testing uses that snapshot.",
     [H_], "every sequence of validation scores",
     "experiments have no tests",
     ["dhg/experiments/base.py"], [("best-model tracking", "dhg/experiments/base.py")])
prop("E03", "Each phase uses only its own data split",
     "Training loss is computed only on training samples, validation metrics only on validation samples and test metrics only on test samples, in every task class.",
     [C_], "every task class and phase",
     "experiments have no tests",
     ["dhg/experiments/vertex_classification.py", "dhg/experiments/recommender.py"], [("mask use in train/validate/test", "dhg/experiments")])
prop("E04", "An experiment completes in every supported configuration",
     "Training, validating, testing and running an experiment completes for either optimisation direction, with or without a structure in the data of a recommender, and with metrics whose values are not single numbers; every piece of data a task combines with the model's output has first been moved to the task's device, whatever device it was given on.",
     [C_, I_], "every task class x direction x optional data x device placement",
     "experiments have no tests",
     ["dhg/experiments/base.py", "dhg/experiments/recommender.py"], [("run / experiment / test", "dhg/experiments")])
prop("E05", "A study touches only its own files",
     "Creating and running an experiment writes only below work_root/study_name (named by the current time when no name is given); an existing study of that name is removed exactly when overwrite is set and everything else below the work root, other studies included, stays; a missing work root is created only when its parent exists, and is otherwise refused with ValueError before anything is changed; the log is appended to log.txt of the study, and after a run its cache holds the model (and structure) of the best trial and nothing of the others.",
     [C_, I_], "every task class x work root (existing, missing, unreachable) x study name x overwrite x previous content of the directory",
     "experiments have no tests, and deleted directories are only noticed by the user who loses them",
     ["dhg/experiments/base.py", "dhg/experiments/recommender.py"], [("__init__ / experiment / _remove_cached_data / run", "dhg/experiments/base.py")])
prop("E06", "A search runs the trials it was asked for, each on its own",
     "run() searches in the requested direction with the requested number of trials (no new trial is started after the search's time limit) and a sampler seeded by the library's seed; every trial builds its own structure and model from its own parameters on the task's device, reports each epoch's validation score under that epoch, stops when it is told to be pruned, steps the scheduler once per completed epoch and is worth its best score; after the search the kept model and structure are the best trial's, whichever trial ran last, and the final test uses exactly these.",
     [C_, I_], "every task class x direction x fixed or per-trial structure x order and pruning of the trials",
     "experiments have no tests, and a run with one trial cannot mix trials up",
     ["dhg/experiments/base.py", "dhg/experiments/recommender.py"], [("experiment / run", "dhg/experiments/base.py")])
prop("W01", "Every name and call inside the package resolves",
     "Every module, attribute and function referenced in the package exists and every call to a package function passes arguments its signature accepts, on every path including rarely used branches.",
     [I_, C_], "every reference and call site of the package",
     "most modules are never executed by the tests",
     ["dhg/__init__.py", "dhg/structure/__init__.py"], [("imports and call sites", "dhg")])
prop("W02", "The public interface exports exactly what it declares",
     "Every name listed as exported by a package exists in it, and documented public classes and functions stay importable from their documented locations.",
     [C_], "every export list",
     "tests import some names",
     ["dhg/__init__.py", "dhg/nn/__init__.py", "dhg/models/__init__.py"], [("__all__ lists", "dhg/**/__init__.py")])
prop("W03", "Drawing options reach the element they name",
     "Each styling argument of the drawing functions (vertex and edge colours, sizes, line widths, fill colours, labels, font settings, force strengths) is applied to the element it names and to no other, per element in the given order; a single value styles every element; passing the documented default explicitly changes nothing; size and width lists of the wrong length, unknown edge styles, structures of another class and structures without edges are refused.",
     [I_, C_], "every styling argument of the four drawing functions and draw methods",
     "tests only check that drawing does not crash",
     ["dhg/visualization/structure/draw.py", "dhg/visualization/structure/defaults.py"], [("default-style resolution and forwarding", "dhg/visualization/structure")])
prop("W04", "Documented arguments and defaults are the ones functions have",
     "Every argument named in the documentation of a public function or constructor is accepted by it, and every argument whose documentation states a default is optional and has that default.",
     [C_], "every documented argument of the package",
     "tests do not read the documentation",
     ["dhg/structure/hypergraphs/hypergraph.py", "dhg/models/graphs/gcn.py"], [("signatures", "dhg")])
prop("W05", "A drawing shows the structure it is made from",
     "A drawing shows every vertex exactly once at its own position inside the axes, and every edge joining exactly its own vertices; straight edges run from the circle of one end to the circle of the other, with an arrow head at the target exactly in directed graphs; the outline of a hyperedge is closed, passes outside the circles of its vertices and at a shared vertex differs from other outlines; the layout is simulated over exactly the edges of the structure.",
     [I_], "every structure drawn",
     "tests only check that drawing does not crash",
     ["dhg/visualization/structure/utils.py", "dhg/visualization/structure/layout.py", "dhg/visualization/structure/draw.py"], [("shapes handed to the canvas", "dhg/visualization/structure")])
prop("W06", "A feature plot shows every embedding at its projected position",
     "The feature-drawing functions and animations show each row of the embeddings exactly once, at the position the chosen projection (t-SNE, or the projection into the Poincare ball with PCA or t-SNE) gives it, rescaled per axis into the shown range (rows not all zero, coordinates not constant), in two or three dimensions as asked, coloured with its own label; projected points lie inside the ball (norm below 1/sqrt(c) for curvature c = 2); other dimensions and reduction methods are refused.",
     [I_], "every embedding matrix, label list, dimension and method",
     "no test covers feature drawing",
     ["dhg/visualization/feature/visualization.py", "dhg/visualization/feature/utils.py"], [("draw_in_*, animation_of_3d_*, project_to_poincare_ball", "dhg/visualization/feature")])
prop("X01", "Force-directed layout converges to a readable placement",
     "The layout simulation terminates and places connected vertices closer than unconnected ones without overlaps.",
     [I_], "every structure and force parameter", "visual quality is not asserted",
     ["dhg/visualization/structure/layout.py"], [("force simulator", "dhg/visualization/structure")])
prop("X02", "Training reaches the published accuracy",
     "Training the provided models on the provided datasets reaches the documented accuracy.",
     [H_], "every model and dataset", "needs data and long runs",
     ["dhg/models/graphs/gcn.py"], [("models", "dhg/models")])

NA = {
    "X01": "quality and convergence of a numerical simulation over run-time forces: no structural clause whose truth is visible in the source",
    "X02": "empirical accuracy over data that is not in the repository: not decidable from source",
}
