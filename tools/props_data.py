NOT_APPLICABLE = []
SMP = ["src/modssc/sampling/services/service.py", "src/modssc/sampling/splitters.py", "src/modssc/sampling/labeling.py",
       "src/modssc/sampling/imbalance.py", "src/modssc/sampling/result.py"]

prop("S01", "Every split is a leak-free partition that honours official splits",
     "For every dataset, plan and seed, the training, validation and test parts are pairwise disjoint, in range and free of duplicates, and the labeled and unlabeled parts partition the training part exactly. "
     "Together the parts cover every sample (every node) unless the plan itself drops training samples, and the k folds of one k-fold plan hold out every sample exactly once. "
     "Official test partitions and official graph masks are used unchanged unless the plan says otherwise.",
     ["inputs", "configurations"], "all labelled datasets (tabular or graph, with or without official parts), all plans, all seeds",
     "Tests sample a few hand-made datasets; the guarantee must hold for every label type, class skew, size, fraction, fold count and policy combination.",
     SMP, [("result validation", "src/modssc/sampling/result.py:SamplingResult.validate"), ("splitters", "src/modssc/sampling/splitters.py"), ("policy handling", "src/modssc/sampling/services/service.py")],
     tech="runtime monitor: partition oracle over generated sampling executions",
     note="Exploration: thousands of generated (dataset, plan, seed) executions per run, each fully judged by an independent partition oracle; not a proof for unexplored inputs.")

prop("S02", "Split sizes, class proportions, label budgets and imbalance match the plan",
     "Every part has the size its fraction or fold asks for (within rounding), stratified parts keep class proportions to within one sample per class, and the number of labeled samples is the requested budget, raised only where the per-class minimum forces it. "
     "Per-class, balanced and proportional labeling allocate labels across classes as named, with the per-class minimum honoured wherever the class has enough samples. "
     "A requested class imbalance (cap or long tail) is applied exactly to the training or labeled part, for tabular and graph data alike, and changes nothing else.",
     ["inputs", "configurations"], "all datasets, split, labeling and imbalance settings, seeds",
     "Rounding, ties, rare classes and minimum/budget conflicts combine in far more ways than the sampled tests.",
     SMP, [("label allocation", "src/modssc/sampling/labeling.py:select_labeled"), ("stratified split", "src/modssc/sampling/splitters.py:stratified_holdout"), ("imbalance", "src/modssc/sampling/imbalance.py:apply_imbalance")],
     tech="runtime monitor: independent counting oracle over generated sampling executions",
     note="Exploration against an oracle that recomputes all counts from the plan; ties and half-way roundings are accepted either way.")

prop("S03", "Splits are reproducible and uniquely fingerprinted",
     "The same dataset, plan and seed always give the same split and the same fingerprint, in any process, whatever ran before and whatever the global random state, and sampling changes neither its input nor any global random state. "
     "Changing any plan setting, the seed or the dataset identity changes the fingerprint, and a different seed really draws a different random split and labeled set. "
     "Changing only the labeling settings never moves samples between training, validation and test.",
     ["inputs", "histories", "configurations"], "all datasets, plans, seeds; all prior call histories, processes and global random states",
     "Tests call sampling once or twice in one process with one global state.",
     SMP + ["src/modssc/sampling/fingerprint.py", "src/modssc/sampling/plan.py"],
     [("derived seeds", "src/modssc/sampling/fingerprint.py:derive_seed"), ("fingerprint", "src/modssc/sampling/fingerprint.py:stable_hash")],
     tech="runtime monitor: differential re-execution under perturbed state, history and process",
     note="Exploration; cross-process executions use fresh interpreters with random hash seeds.")

prop("S04", "Saved splits load back identically and are never half-written",
     "A saved split loads back with identical indices, masks, plan, fingerprints and statistics, and saving refuses to replace an existing split unless told to. "
     "If a save is interrupted or fails at any point, a later load returns the complete old split, the complete new one, or an error, never a partial or mixed split. "
     "Saving again with overwrite always repairs the directory.",
     ["crash_points", "fault_sequences", "inputs"], "all splits; all file operations at which a save can be killed, torn, or fail",
     "Tests save and load without interruptions.",
     ["src/modssc/sampling/storage.py", "src/modssc/utils/io.py"],
     [("atomic metadata", "src/modssc/utils/io.py:atomic_write_text"), ("metadata written last", "src/modssc/sampling/storage.py:save_split")],
     level="fault_enumeration", tech="fault injection at every file-system call (audit hook) with a state oracle",
     note="Every mutating file call of a save is interrupted by kill, torn write, I/O error and full disk; power-loss reordering of unsynced writes is not modelled.")

DLD = ["src/modssc/data_loader/api.py", "src/modssc/data_loader/cache.py", "src/modssc/data_loader/storage/files.py",
       "src/modssc/data_loader/manifest.py", "src/modssc/data_loader/numpy_adapter.py"]

prop("D01", "A dataset loaded from the cache equals the dataset that was downloaded",
     "Whatever a provider delivers (features, labels, edges, edge weights, masks and metadata, of any array type, shape, text or object content), loading it again from the cache gives the same values, shapes and types, with or without a test part. After the cache folder is moved, stored file paths refer to the files in their new place. "
     "The numpy view of a dataset has the same content as the dataset itself, and object content is only read back when the caller allows it.",
     ["inputs", "histories"], "all datasets a provider can produce and all cache round trips",
     "Tests store a few small numeric arrays; the guarantee must hold for every dtype, shape, text, sparse and nested content.",
     DLD, [("file storage", "src/modssc/data_loader/storage/files.py"), ("cached load", "src/modssc/data_loader/api.py:load_dataset")],
     tech="runtime monitor: round-trip oracle over generated datasets pushed through the real loader",
     note="Generated provider content; values are compared exactly, including dtype and shape.")

prop("D02", "An interrupted download or purge never leaves a dataset that loads wrongly",
     "If a download, forced refresh or purge is killed or fails at any file operation, a later load returns the complete old dataset, the complete new one, or reports that it is not cached, and never partial or mixed content. "
     "After any interruption a normal load works again and repairs the entry.",
     ["crash_points", "fault_sequences"], "all file operations of download, refresh and purge at which the process can be killed, torn, or see an I/O error",
     "Tests never interrupt a download.",
     DLD, [("manifest is the commit point", "src/modssc/data_loader/manifest.py:write_manifest"), ("download", "src/modssc/data_loader/api.py:_download_and_store")],
     level="fault_enumeration", tech="fault injection at every file-system call (audit hook) with a state oracle",
     note="Every mutating file call is interrupted by kill, torn write, I/O error and full disk; reordering of unsynced writes on power loss is not modelled.")

prop("D03", "Concurrent loads of one dataset are exclusive and all get the right data",
     "When several processes or threads load the same dataset at the same time, at most one of them fetches and stores it at any moment, the others wait and then read the finished entry, and each gets exactly the source's data. "
     "The source is fetched once (plus once per forced refresh or killed builder), and a loader that dies while holding the cache lock never blocks or corrupts the others.",
     ["schedules", "crash_points"], "all interleavings of concurrent loaders and all points at which one of them dies",
     "Tests load from one thread at a time.",
     DLD, [("cache lock", "src/modssc/data_loader/cache.py:cache_lock"), ("load under lock", "src/modssc/data_loader/api.py:load_dataset")],
     tech="runtime monitor: offline checker over the event log of concurrently running loaders with injected delays and kills",
     note="Observed interleavings only; delays are injected at file operations and inside the source, distinct event orders are counted.")

PROVS = ["src/modssc/data_loader/providers/*.py", "src/modssc/data_loader/types.py", "src/modssc/data_loader/services/service.py"]

prop("D04", "A dataset fingerprint stands for exactly one content",
     "Two requests that would deliver different data never share a fingerprint or a cache entry, so any history of loads from one shared cache returns each request's own data. "
     "The same request has the same fingerprint whatever the option order, the cache folder, the process or the earlier history.",
     ["inputs", "histories"], "all providers, references and options; all histories of loads over one cache",
     "Tests compare a few identities; the guarantee quantifies over all pairs of requests and all cache histories.",
     PROVS, [("identity fingerprint", "src/modssc/data_loader/types.py:DatasetIdentity.fingerprint"), ("provider resolve", "src/modssc/data_loader/providers/base.py:BaseProvider.resolve")],
     tech="runtime monitor: differential execution of request pairs and histories against fresh private caches",
     note="Upstream libraries are replaced at their public entry points by deterministic stand-ins; no real download takes place.")

prop("D05", "Cache maintenance removes exactly what it names and nothing outside the cache",
     "Purging a fingerprint or a dataset, keeping only the latest variants, and rebuilding or listing the index affect exactly the named entries; every other entry stays loadable with unchanged content, and the index always lists exactly the cached entries. "
     "A removed entry is gone until it is fetched again, and no name given to a purge can delete or change a file that is not part of that entry.",
     ["histories", "inputs"], "all histories of loads, refreshes and maintenance operations; all names given to purge",
     "Tests run one operation on one entry; state can only go wrong over histories, mixed variants and hostile names.",
     DLD + ["src/modssc/cli/datasets.py"], [("maintenance", "src/modssc/data_loader/cache.py:purge_fingerprint"), ("keep latest", "src/modssc/data_loader/cache.py:gc_keep_latest"), ("index", "src/modssc/data_loader/cache.py:rebuild_index")],
     tech="runtime monitor: model-based history checker over cache, index and disk, plus a file-access monitor for containment",
     note="Histories of 4-16 steps against a dictionary model; hostile names run in a contained child where removals outside the scratch cache are recorded and refused.")

prop("D06", "Provider options select exactly the requested, correctly aligned samples",
     "Class filters, sample limits, seeds, column choices and test-split preferences deliver exactly the requested number of distinct upstream samples, from the right official part, each with its own label, features and masks. "
     "Graph subsets keep exactly the edges between kept nodes, renumbered consistently. "
     "Seeded draws are reproducible and depend on the seed; unseeded ones keep upstream order.",
     ["inputs", "configurations"], "all providers and all combinations of selection options",
     "Tests check single options on tiny stubs; misalignment shows only for particular combinations.",
     PROVS, [("limits", "src/modssc/data_loader/providers/common.py:apply_limits"), ("graph subset", "src/modssc/data_loader/providers/pyg.py:_subset_graph")],
     tech="runtime monitor: row-tracing oracle (upstream rows carry their index) over generated requests",
     note="Upstream libraries are replaced by deterministic stand-ins that label every row with its origin.")

PRE = ["src/modssc/preprocess/services/pipeline.py", "src/modssc/preprocess/cache.py", "src/modssc/preprocess/steps/**/*.py",
       "src/modssc/preprocess/plan.py", "src/modssc/preprocess/fingerprint.py"]

prop("D07", "Downloading the catalogue does and reports exactly what happened to each dataset",
     "A catalogue download touches exactly the datasets chosen by include, exclude and modality, contacts a source only when the entry is not cached or a refresh is forced, and one failing or unavailable dataset never stops or spoils the others. "
     "The report and the command line list every chosen dataset under the one outcome that happened (downloaded, already cached, missing library with the right extra, failed with its reason), and afterwards exactly the downloaded ones load from the cache with their own content. "
     "When missing libraries are not to be ignored, the error is raised.",
     ["inputs", "configurations", "faults"], "all catalogues, selections, cache states, missing libraries and failing sources",
     "Tests use one or two stubbed keys per option; mixed outcomes and option combinations are not covered.",
     PROVS, [("bulk download", "src/modssc/data_loader/services/service.py:download_all_datasets"), ("selection", "src/modssc/data_loader/services/service.py:_select_catalog_keys")],
     tech="runtime monitor: outcome model over recorded upstream contacts, reports, CLI output and cache content",
     note="Upstream libraries are replaced by recording stand-ins, some failing or absent.")
prop("P01", "Cached preprocessing gives exactly what an uncached run gives",
     "For any history of preprocessing requests over one cache (plans that share, change, reorder or disable steps, other parameters, seeds, fit subsets, datasets or purge settings), every request returns the same data, labels, edges and artifacts as the same request run without a cache. "
     "A step output is only reused for the same dataset fingerprint, step, parameters, seed, fit subset and inputs.",
     ["histories", "inputs", "configurations"], "all plans, datasets and request histories over a shared cache",
     "Tests run one plan twice; stale reuse needs two particular plans or fit sets that meet in one cache.",
     PRE, [("step fingerprint and reuse", "src/modssc/preprocess/services/pipeline.py:preprocess"), ("step cache", "src/modssc/preprocess/cache.py:CacheManager")],
     tech="runtime monitor: differential execution of request histories over a shared cache against uncached runs",
     note="Generated histories of 8-14 requests; datasets are identified by their fingerprint, as the library documents.")

prop("P02", "Preprocessing is deterministic, pure and unaffected by pruning",
     "The same dataset, plan, seed and fit rows give the same result, artifacts and fingerprints in any process, whatever ran before and whatever the global random state. "
     "Preprocessing never changes the caller's data or any global random state. "
     "Turning unused-artifact pruning or the cache on or off never changes the resulting dataset.",
     ["inputs", "histories", "configurations"], "all plans, datasets and seeds; all prior histories, processes and global random states",
     "Tests run a plan once in one process.",
     PRE, [("pipeline", "src/modssc/preprocess/services/pipeline.py:preprocess"), ("pruning", "src/modssc/preprocess/services/pipeline.py:preprocess"), ("seeded steps", "src/modssc/preprocess/steps/graph/dgi.py")],
     tech="runtime monitor: differential re-execution under perturbed state, history and process",
     note="Generated plans over all modalities except steps that need a downloaded pretrained model; cross-process runs use fresh interpreters.")

prop("P03", "Fitted preprocessing never sees test, held-out rows or labels",
     "Replacing the content of the test part, of training rows outside the fit rows, or of any labels never changes the processed features of the other rows. "
     "Every output row is computed from its own input row, so processed features and labels stay aligned one-to-one with the samples.",
     ["inputs", "configurations"], "all plans of non-generative steps, datasets and fit subsets",
     "Tests check fitted means on one toy array; leakage is a relation between two runs.",
     PRE, [("fit on fit rows", "src/modssc/preprocess/services/pipeline.py:preprocess"), ("vision layout", "src/modssc/preprocess/steps/vision/layout.py")],
     tech="runtime monitor: two-run non-interference (taint by replacement) oracle",
     note="Exploration of generated plans; one known finding: a batch of 1, 3 or 4 grey images is read as a single image.")

prop("P04", "An interrupted or damaged preprocess cache never changes results",
     "If preprocessing is killed or fails at any file operation, or cached files are truncated, emptied, deleted or garbled into undecodable bytes, every later run over the same cache finishes and returns exactly the result of an uncached run. "
     "A later run repairs the cache.",
     ["crash_points", "fault_sequences"], "all file operations of a cached run; all undecodable states of the cached files",
     "Tests never interrupt a run or damage its cache.",
     PRE, [("step outputs", "src/modssc/preprocess/cache.py:CacheManager.save_step_outputs"), ("load", "src/modssc/preprocess/services/pipeline.py:_load_cached_outputs")],
     level="fault_enumeration", tech="fault injection at every file-system call (audit hook) and cache damage with a differential oracle",
     note="Kill, torn write, I/O error and full disk at every mutating file call; damage that still decodes to other values is not detectable and not claimed.")

prop("P05", "Built-in preprocessing steps compute what they are documented to compute",
     "Each built-in numeric, text, vision, audio, label and graph step returns, for every valid input and parameter setting, the values its definition prescribes (standardisation, imputation, encoding, projection, tokenisation, resizing, normalisation, cropping, padding and so on), with the documented shape and type. "
     "Steps accept the forms a previous step can hand them (arrays, sparse matrices, tensors, lists) and give the same values for each.",
     ["inputs", "configurations"], "all inputs and parameters of the built-in steps that need no pretrained model",
     "Tests use one or two tiny inputs per step.",
     PRE, [("steps", "src/modssc/preprocess/steps/base.py"), ("catalogue", "src/modssc/preprocess/catalog.py")],
     tech="runtime monitor: independent reference implementation per step over generated inputs",
     note="Reference formulas are written from the step documentation; random projections are checked for their defining structure and distance preservation in distribution-free form only.")

prop("P06", "Train and test labels are encoded with one shared class order",
     "After label encoding, two samples carry the same class number or one-hot column exactly when they carry the same original class, in the training and test part alike, and the numbering follows the training classes. "
     "A test label unseen in training never gets the number of another class.",
     ["inputs"], "all label values, types and train/test class sets",
     "Tests encode one part whose classes are all present.",
     ["src/modssc/preprocess/steps/labels/*.py", "src/modssc/preprocess/services/pipeline.py"],
     [("encode", "src/modssc/preprocess/steps/labels/encode.py"), ("onehot", "src/modssc/preprocess/steps/labels/ensure_onehot.py")],
     tech="runtime monitor: class-identity oracle over train/test label pairs",
     note="Exploration of generated label sets of every supported type.")

prop("V01", "Feature views are exactly the requested columns of the data",
     "Every view of a views plan holds, for train and test alike, exactly the columns its specification names (all, listed, a random subset of the requested size, or the complement of an earlier view) of the data its own preprocessing yields, with labels, edges and masks unchanged. "
     "A two-view feature split partitions the features. "
     "Random columns depend only on the seed, the view's name and offset, never on other views, the cache or global random state, and the input dataset is left unchanged.",
     ["inputs", "configurations"], "all datasets, view plans and seeds",
     "Tests use two fixed views; combinations of modes, containers and preprocessing are unbounded.",
     ["src/modssc/views/**/*.py"], [("generate views", "src/modssc/views/services/service.py:generate_views"), ("columns", "src/modssc/views/services/service.py:_resolve_columns")],
     tech="runtime monitor: independent column oracle over generated view plans",
     note="Exploration; preprocessing inside views is compared with running the same plan by hand.")

GR = ["src/modssc/graph/construction/**/*.py", "src/modssc/graph/specs.py", "src/modssc/graph/artifacts.py"]

prop("G01", "Constructed graphs have exactly the edges and weights their spec describes",
     "For every point set, a kNN graph links each node to its min(k, n-1) nearest other nodes, an epsilon graph links exactly the pairs within the radius, and an anchor graph links true candidates only, with every exact backend, metric and chunk size agreeing up to ties and rounding. "
     "Weights are the stated function of the pair's distance; symmetrisation, self loops and normalisation yield exactly the stated matrix without duplicate edges.",
     ["inputs", "configurations"], "all dense feature matrices and all graph specifications (approximate faiss indexes: validity only)",
     "Tests use a few points; ties, duplicates, tiny n, offsets and option combinations are unbounded.",
     GR, [("raw edges", "src/modssc/graph/construction/builder.py:build_raw_edges"), ("post-processing", "src/modssc/graph/construction/services/service.py:build_graph")],
     tech="runtime monitor: brute-force float64 geometric oracle and dictionary reference for post-processing",
     note="n up to 60; boundary decisions within float32 rounding of the compared distances are accepted either way; negative degrees (cosine weights) are not normalised.")

prop("G02", "Graph construction is deterministic, pure and cached under a true identity",
     "The same features, spec, seed and upstream fingerprints give the same graph and fingerprint in any process, for any chunk size, whatever ran before; features and global random state are untouched. "
     "Over any history of requests on one cache, in single or sharded storage and with or without resuming, each request gets exactly the graph an uncached build gives, and requests that differ in features, upstream fingerprint, spec or seed never share an entry.",
     ["inputs", "histories", "configurations"], "all request histories over one graph cache; all storage forms",
     "Tests build once and reload once.",
     GR + ["src/modssc/graph/cache.py", "src/modssc/graph/fingerprint.py"],
     [("identity", "src/modssc/graph/construction/services/service.py:_graph_fingerprint"), ("cache", "src/modssc/graph/cache.py:GraphCache")],
     tech="runtime monitor: differential execution of request histories against uncached builds",
     note="Feature matrices above 4 MB without an upstream fingerprint are identified by prefix and suffix only, as documented, and are outside the claim.")

prop("G03", "An interrupted or damaged graph cache never yields a wrong graph or view",
     "If a cached graph build, view computation, overwriting save or purge is killed or fails at any file operation, later builds return exactly the uncached result, and a load returns the old graph, the new graph or an error, never a mixture. "
     "A finished entry with deleted, emptied or truncated files gives the right graph or an error, and purging it makes building work again.",
     ["crash_points", "fault_sequences"], "all file operations of cache writes; all truncations and deletions of cache files",
     "Tests never interrupt a build.",
     ["src/modssc/graph/cache.py", "src/modssc/graph/construction/services/service.py", "src/modssc/graph/construction/backends/numpy_backend.py", "src/modssc/graph/featurization/api.py"],
     [("manifest last", "src/modssc/graph/cache.py:GraphCache.save"), ("resumable chunks", "src/modssc/graph/construction/backends/numpy_backend.py:knn_edges_numpy")],
     level="fault_enumeration", tech="fault injection at every file-system call (audit hook) and cache damage with a differential oracle",
     note="Kill, torn write, I/O error and full disk at mutating file calls; damage that still decodes is not claimed.")

prop("G04", "Graph-derived views, masks and exports match the given graph and features",
     "Attribute and diffusion views equal their defining formula on the given graph, weights and features; structural views depend on the graph and seed only and keep components apart. "
     "With the view cache on, every request gets the views of its own features, edges, weights, spec and seed and its own labels and masks. "
     "Masks built from indices and exports to PyTorch Geometric carry exactly the given content.",
     ["inputs", "histories"], "all graphs and feature matrices; all request histories over one view cache",
     "Tests reuse one graph; stale views need two datasets that meet in one cache.",
     ["src/modssc/graph/featurization/**/*.py", "src/modssc/graph/masks.py", "src/modssc/graph/adapters/pyg.py", "src/modssc/graph/cache.py"],
     [("views", "src/modssc/graph/featurization/api.py:graph_to_views"), ("masks", "src/modssc/graph/masks.py:masks_from_indices")],
     tech="runtime monitor: dense reference computation and differential cache histories",
     note="Non-negative weights; graphs whose meta carries a fingerprint are identified by it, as documented.")

TR = ["src/modssc/transductive/methods/**/*.py", "src/modssc/transductive/operators/*.py", "src/modssc/transductive/backends/*.py", "src/modssc/transductive/solvers/*.py"]
prop("T01", "Graph label-inference solvers return the solution their definition gives",
     "On any graph with non-negative weights (directed, duplicate edges, self-loops, several components, isolated nodes) and any labelled subset, label propagation, label spreading, Laplace learning, lazy random walks, "
     "dynamic label propagation, graph min-cut, Poisson learning, p-Laplace learning and Poisson MBO return the iterate, linear-system solution, minimum cut or energy minimiser their definition prescribes for their options, identically (up to rounding) on the NumPy and PyTorch backends and through the method classes. "
     "Labelled nodes keep exactly their labels where the method clamps them.",
     ["inputs", "configurations"], "all weighted graphs, labelled subsets, solver options and backends",
     "Tests check shapes and a few hand-made graphs.",
     TR, [("LP", "src/modssc/transductive/methods/classic/label_propagation.py:label_propagation"), ("p-Laplace", "src/modssc/transductive/methods/pde/p_laplace_learning.py:p_laplace_learning_numpy")],
     tech="runtime monitor: differential execution against dense float64 solvers, exhaustive min-cut search and energy comparison",
     note="Graphs up to 14 nodes; well-conditioned linear systems; symmetric normalisation where every source has incoming weight.")

prop("T02", "Transductive predictions use only the given labels and are well-formed",
     "Every transductive method's scores are finite, one row per node and one column per class (probabilities for the probabilistic methods), and fitting changes no input. "
     "Labels outside the training mask (and, where early stopping uses it, the validation mask) never influence any prediction, and renaming the nodes or reordering the edges renames the predictions. "
     "Malformed datasets (bad edges, masks, labels or shapes) are refused.",
     ["inputs", "configurations"], "all node datasets, masks and methods",
     "Tests fit each method on one small dataset and never vary the hidden labels.",
     TR + ["src/modssc/transductive/validation.py", "src/modssc/transductive/registry.py"],
     [("validation", "src/modssc/transductive/validation.py"), ("GNN training", "src/modssc/transductive/methods/gnn/common.py:train_fullbatch")],
     tech="runtime monitor: metamorphic execution (hidden labels, node names) and output/input contracts on all methods",
     note="Renaming is checked for methods without random walks or negative sampling; graphs up to 16 nodes.")

prop("T03", "Transductive fits depend only on data, settings and seed",
     "Fitting any transductive method with the same data, settings and seed gives the same scores, in any process and whatever was fitted, predicted or re-seeded before. "
     "On any sequence of predictions, refits and short-lived or replaced datasets, every answer equals that of an untouched twin, and methods with random parameters do use the seed.",
     ["histories", "inputs"], "all histories of fits and predictions; all seeds",
     "Tests fit once; stale caches and global random state only show in histories.",
     TR, [("prepared-data cache", "src/modssc/transductive/methods/gnn/common.py"), ("registry", "src/modssc/transductive/registry.py")],
     tech="runtime monitor: differential execution of fit/predict histories against untouched twins",
     note="In-place mutation of arrays inside a fitted dataset is outside the claim (the cache is documented as identity based).")

prop("T04", "Graph neural methods compute their layer equations and selection rule",
     "For every graph, feature matrix, option set and seed, the probabilities of GCN, SGC, GraphSAGE, APPNP, ChebNet, GCNII, GAT, N-GCN, H-GCN, GRAND and GraphHop are those of their layer equations on the normalised graph, "
     "trained on the training nodes' cross-entropy (with the method's own extra terms) by Adam from the seeded start. "
     "With a validation mask the parameters of the best validation epoch are returned and training stops once patience runs out.",
     ["inputs", "configurations"], "all graphs, features, options, seeds and validation masks",
     "Tests check shapes and that probabilities sum to one; a wrong normalisation, off-by-one power or stale best state trains all the same.",
     ["src/modssc/transductive/methods/gnn/*.py"], [("training loop", "src/modssc/transductive/methods/gnn/common.py:train_fullbatch"), ("normalisation", "src/modssc/transductive/methods/gnn/common.py:normalize_edge_weight")],
     tech="runtime monitor: differential execution against dense float64 implementations of the layer equations",
     note="Graphs up to 16 nodes, up to 9 epochs, where training does not amplify rounding; H-GCN and N-GCN on symmetrised graphs; GraFN and Planetoid are covered by T02 and T03 only.")


SU = ["src/modssc/supervised/**"]
prop("C01", "Every supervised classifier honours the common contract, seeded and refittable",
     "For any classifier, backend, parameters and labels, predict returns original training labels that are the argmax of predict_scores in class order, predict_proba rows are distributions, "
     "answers are per row (row order, batching and duplicates do not matter), and neither fit nor predict changes its inputs. "
     "A fit depends only on its parameters, seed and data: not on earlier fits of the same object, on other classifiers, or on the process's random state. "
     "The factory hands parameters and runtime settings to the backend it chose and refuses unknown names, parameters and malformed inputs.",
     ["inputs", "configurations", "histories"], "all classifiers and backends; all label sets, feature arrays, parameters, seeds and fit histories",
     "Tests fit each classifier on one tiny set; label remapping, refits and stray random state need varied labels and histories.",
     SU, [("factory", "src/modssc/supervised/api.py:create_classifier"), ("base", "src/modssc/supervised/base.py:BaseSupervisedClassifier"), ("torch mixins", "src/modssc/supervised/backends/torch/*.py")],
     tech="runtime monitor: output contracts and twin executions (refits, permutations, perturbed random state) on every classifier",
     note="Pretrained downloads are replaced by a registered tiny model; GPU paths are not run.")

prop("C02", "Supervised classifiers compute their algorithm",
     "k-nearest-neighbour scores are the normalised (uniform or inverse-distance) votes of the k nearest training rows under the chosen metric in all three backends. "
     "The scikit-learn classifiers give the library estimator's own answers for the stated parameters. "
     "The torch networks (logistic, MLP, CNNs, LSTM, GraphSAGE, fine-tuned image and audio models) end with the weights their stated architecture, loss, optimiser, epochs and batch order produce from the seed, frozen layers staying frozen.",
     ["inputs", "configurations"], "all training sets, parameters and seeds",
     "Tests check accuracy on separable toy data, which a wrong vote weight, a dropped parameter or a mistrained network still passes.",
     SU, [("kNN", "src/modssc/supervised/backends/numpy/knn.py"), ("networks", "src/modssc/supervised/backends/torch/*.py"), ("estimators", "src/modssc/supervised/backends/sklearn/*.py")],
     tech="runtime monitor: differential execution against own voting, plain library estimators and own training loops",
     note="Small networks and few epochs; the batch order is taken from torch's own DataLoader with the same generator.")

prop("I03", "Self-labelling methods pick, label and keep exactly what their rules name",
     "For any base classifier scores, pseudo-label, self-training (with group propagation), co-training, tri-training, democratic co-learning, S4VM and SETRED end trained on exactly the labelled set "
     "plus the unlabelled examples their confidence, count, agreement, graph and iteration rules select, each with the label its rule gives, in original label values. "
     "Their final probabilities combine the learners as stated.",
     ["inputs", "histories"], "all score functions, label sets, thresholds, limits and iteration counts, numpy and torch backends",
     "Tests run one or two iterations on toy clusters; index drift in the shrinking pool or a wrong tie of view and label only shows over many rounds.",
     ["src/modssc/inductive/methods/*.py"], [("loops", "src/modssc/inductive/methods/{pseudo_label,self_training,co_training,tri_training,democratic_co_learning,s4vm,setred}.py"), ("selection", "src/modssc/inductive/methods/utils.py")],
     tech="runtime monitor: lock-step model of each loop over a scripted base classifier registered in the real registry",
     note="Executions where a rule leaves a choice (equal scores at a cut) are counted as ambiguous and not judged.")

DEEP = "pi-model, mean teacher, temporal ensembling, UDA, FixMatch, DeFixMatch, FlexMatch, AdaMatch, SoftMatch, FreeMatch, CoMatch, ADSH, DASO, noisy student, meta pseudo labels, MixMatch, VAT, deep co-training, SimCLRv2 and Tri-net"
prop("I05", "Deep methods step along their objective's gradient, on the rows it names",
     f"Every optimiser step of {DEEP} applies the gradient of that method's stated objective at the current weights, evaluated on rows of the given data. "
     "Labels stay with their rows, weak and strong views of one example stay paired (also as subgraphs with their own edge weights), and each epoch covers the data as its batching says. "
     "Teacher averages, queues, running thresholds and warm-ups follow their stated updates, and prediction uses the stated final model.",
     ["inputs", "histories"], "all networks, data, batch sizes, epochs, option values and seeds; tensors and graph batches",
     "A wrong mask, average, pairing or sign still trains; tests run one step and check that nothing crashes.",
     ["src/modssc/inductive/methods/*.py"], [("methods", "src/modssc/inductive/methods/*.py"), ("batching", "src/modssc/inductive/methods/helpers/torch_support.py"), ("deep helpers", "src/modssc/inductive/methods/deep_utils.py")],
     tech="runtime monitor: recorded forward passes and optimiser steps, judged by an own statement of each objective and its state",
     note="A small tagged network stands in for the user's model; executions whose mask falls within rounding of a threshold are counted, not judged.")

prop("I04", "A deep method's model bundle is the network, optimiser and average configured",
     "The bundle built for a deep method computes the named architecture in every input layout its builder accepts, with weights settled by seed and configuration and shared with no other bundle. "
     "Its optimiser updates exactly the trainable weights at the configured rate and decay, dropout acts at the configured rate in training only, a frozen backbone never changes, and the weight average is a separate equal copy. "
     "Configurations and bundles that cannot be trained are refused.",
     ["inputs", "configurations"], "all classifier ids, input layouts, sizes, options, seeds and process states",
     "A bundle with a wrong layout, layer or optimised set still trains; tests check types and shapes of single configurations.",
     ["src/modssc/inductive/deep/**", "src/modssc/supervised/backends/torch/*.py"],
     [("bundle factory", "src/modssc/inductive/deep/bundle_factories/factory.py"), ("bundle validation", "src/modssc/inductive/deep/validation.py")],
     tech="runtime monitor: own forward passes over the bundle's weights, recorded optimiser steps, state snapshots, refusal probes",
     note="Pretrained weights cannot be downloaded here: torchvision networks run untrained, audio encoders are a stand-in.")

prop("I01", "Every inductive method honours the common fit and predict contract",
     "Whatever the method, base classifier or network, labels and options: predict_proba gives one distribution per row over the classes, predict gives original labels and agrees with it, "
     "answers are per row and repeatable, and neither fitting nor predicting changes the inputs, the trained networks, their modes or random state. "
     "Data and options a method cannot train on are refused, as is predicting before fitting.",
     ["inputs", "configurations"], "all 28 methods, base classifiers, networks, label sets, data sizes and options",
     "Tests use two contiguous labels and one batch; label remapping, batching and train-mode side effects need varied labels, sizes and networks.",
     ["src/modssc/inductive/**"], [("methods", "src/modssc/inductive/methods/*.py"), ("validation", "src/modssc/inductive/validation.py"), ("prediction", "src/modssc/inductive/methods/helpers/torch_support.py")],
     tech="runtime monitor: contract monitors on real fits and predictions, state snapshots around every call, refusal probes",
     note="Graph batches are judged without the per-row clause, since prediction takes induced subgraphs; only separable two-class problems are judged for accuracy.")

prop("I02", "Inductive fits depend only on data, options and seed",
     "Repeating a fit with the same data, options, seed and starting weights gives the same probabilities and labels, whatever the process's random state, earlier fits of the same method object, "
     "other fits running in the process, or the process itself. The seed is actually used by the methods that draw at random.",
     ["inputs", "histories", "processes"], "all 28 methods with real base classifiers and networks, options and seeds",
     "Tests fit once per object; leaks of global generators or of the previous fit's statistics need a disturbed or repeated run to show.",
     ["src/modssc/inductive/**"], [("methods", "src/modssc/inductive/methods/*.py"), ("seeding", "src/modssc/inductive/seed.py")],
     tech="runtime monitor: twin executions under disturbed random state, repeated objects, interleaved fits and fresh processes",
     note="Networks with dropout, whose masks come from torch's global generator, are outside the claim.")

AUG = ["src/modssc/data_augmentation/**"]
prop("A01", "Augmented samples depend only on sample, plan and context",
     "Applying an augmentation plan runs its steps in order and yields a sample that depends only on the input, the plan and the context's seed, epoch and sample id: never on process random state, "
     "earlier calls, other samples or the weak/strong partner. The input sample is never changed. Unknown operations, parameters or modalities are refused.",
     ["inputs", "configurations", "histories"], "all operations, plans, modalities, array and tensor samples, seeds, epochs and ids",
     "Tests apply one operation once; shared generators or in-place edits only show when calls are interleaved, repeated or disturbed.",
     AUG, [("pipeline", "src/modssc/data_augmentation/api.py"), ("generator", "src/modssc/data_augmentation/utils.py"), ("operations", "src/modssc/data_augmentation/ops/*.py")],
     tech="runtime monitor: twin executions under disturbed random state and call history, input snapshots, step-by-step recomposition, refusal probes",
     note="Samples are small; the distribution over seeds is A02's subject.")

prop("A02", "Each augmentation changes a sample only as its definition allows",
     "Masking operations set exactly whole units to the stated fill, noise has the stated scale, flips and crops are exact re-arrangements within bounds, text and graph edits keep what they must, "
     "and every rate parameter is the actual frequency over seeds. Rate zero is the identity, shapes and types stay, and array and tensor samples are treated alike.",
     ["inputs", "configurations"], "all operations, parameter values, shapes and layouts",
     "Tests check shapes or one seed; a wrong axis, an off-by-one bound or a doubled rate needs many seeds and odd shapes.",
     AUG, [("operations", "src/modssc/data_augmentation/ops/*.py")],
     tech="runtime monitor: per-operation structural oracles on every output and frequency tests over seeds with bounded false-alarm probability",
     note="Frequencies are judged with margins of many standard deviations.")

BE = ["bench/**"]
prop("B01", "Runner trains and scores on exactly the configured rows",
     "A benchmark run hands the method exactly the labelled and unlabelled rows, labels, views, graph, masks and augmented samples that the configured split, preprocessing, views, graph and augmentation give, "
     "with held-out labels having no influence. Every reported metric is that metric of the method's predictions on the named split's rows against their true labels.",
     ["inputs", "configurations"], "all data kinds, splits, plans, graphs, augmentations, methods, backends and cache states",
     "There are no runner tests at all; offsets between train and test rows, label spaces or cached graphs show only in whole runs.",
     BE, [("runner", "bench/main.py"), ("inductive", "bench/orchestrators/method_inductive.py"), ("transductive", "bench/orchestrators/method_transductive.py"), ("scoring", "bench/orchestrators/evaluation.py"), ("row selection", "bench/orchestrators/slicing.py")],
     tech="runtime monitor: registered probe methods record all they are handed in real runs; an independent staging and own metrics judge it; real methods are compared with direct use",
     note="Data sets are small and injected at the data source; GPU devices are not available.")
prop("B02", "Benchmark runs reproduce from configuration and seed",
     "The same configuration and seed gives the same metrics and predictions whatever ran before, whether caches are cold, warm or off, and in another process with another hash seed. "
     "Every stage draws from its own seed derived from the run seed and its label (or its configured override), and a seed sweep runs each listed seed as a single run of it would and aggregates exactly the successful runs' metrics.",
     ["inputs", "configurations", "histories"], "all method families, plans, cache states, processes and seed lists",
     "Leaking global random state, a stage seed shared with another or a stale cache shows only when whole runs are repeated in different histories.",
     BE, [("runner", "bench/main.py"), ("stage seeds", "bench/context.py"), ("aggregate", "bench/orchestrators/reporting.py"), ("configuration recorded in run.json", "bench/context.py")],
     tech="runtime monitor: real experiments repeated in varied histories, caches and processes; probe methods log the seeds and data of every stage; aggregates recomputed from the single runs",
     note="CPU only; methods whose results depend on thread timing are not asserted bit for bit.")

prop("B03", "A search scores the configured trials and the final run uses the best",
     "A hyper-parameter search runs exactly the trials its space, sampler, count and seed define, each with its patch applied to the configured method under the configured limits and seeds, "
     "and scores each by the stated metric and aggregate on the stated split. The best trial follows from the recorded scores and direction, ties going to the earliest, and the final run uses its patch. "
     "A failing trial is recorded as failed and never wins; a search without a usable trial is an error.",
     ["inputs", "configurations", "fault_sequences"], "all spaces, samplers, counts, repeats, directions, metrics, method families and failing trials",
     "There are no bench tests; a wrong direction, a tie, a NaN score or a failing repeat shows only in whole searches.",
     BE + ["src/modssc/hpo/**"], [("search", "bench/orchestrators/hpo.py"), ("runner", "bench/main.py"), ("space", "src/modssc/hpo/space.py")],
     tech="runtime monitor: probe methods record every trial of real searches; an own statement of trials, scores and winner judges the records, the final run and the reports",
     note="Spaces are small; searches run on injected data sets on the CPU.")

prop("B04", "Limits clamp what a run may use, and what a method requires is checked",
     "Configured limits lower batch, edge and size settings to the profile's bound and never raise, invent or change anything else, in the run and in what run.json records. "
     "Configurations that contradict themselves, name unknown keys or ask a method for what it does not support are refused with an error before training, and valid ones are not.",
     ["inputs", "configurations"], "all limit profiles and overrides, method parameters, configurations and method requirements",
     "There are no bench tests; clamping and refusals depend on combinations of sections.",
     BE, [("limits", "bench/limits.py"), ("configuration", "bench/schema.py"), ("runner", "bench/main.py")],
     tech="runtime monitor: recorded parameters of real runs under generated limits against an own clamp, refusal probes paired with their valid twin",
     note="GPU autodetection is not available; profiles are named.")

prop("B05", "Every run reports its true outcome in its own folder",
     "Whatever stage fails, the run's record says it failed, where and why, exit codes follow, and nothing of a failed run is reported as a result; a successful run's record holds its configuration, metrics and artifacts. "
     "Runs never write into one another's folder, and a report that cannot be written is an error, not a silent success.",
     ["fault_sequences", "configurations", "histories"], "all stages, injected failures, fail-fast settings, run names, times and disk faults",
     "There are no bench tests; failures at a given stage must be injected.",
     BE, [("runner", "bench/main.py"), ("context", "bench/context.py"), ("reporting", "bench/orchestrators/reporting.py"), ("errors", "bench/errors.py")],
     tech="runtime monitor: faults injected at every stage and at report writes of real runs; records, folders and exit codes judged against what was injected",
     note="Faults are exceptions and I/O errors; process kills during a bench run are not injected.")

prop("B06", "The run record states what the run actually did",
     "Every seed, fingerprint, row and view count, device, backend, data type, limit change, conversion event and protocol entry in run.json is that of what was executed, and the recorded configuration is the one the method ran with. "
     "Runs whose configurations are equal share their hashes and identity whatever the order of keys; runs differing in any value do not.",
     ["configurations", "inputs"], "all run kinds, sections, overrides, limits, searches and configurations differing in one value",
     "There are no bench tests; whether a record is true can only be judged against what a probe saw being executed.",
     BE, [("runner", "bench/main.py"), ("reporting", "bench/orchestrators/reporting.py"), ("inductive stage", "bench/orchestrators/method_inductive.py"), ("transductive stage", "bench/orchestrators/method_transductive.py"), ("hashing", "bench/utils/hashing.py")],
     tech="runtime monitor: probe methods record what they are handed; run.json compared entry by entry with it and with an own staging through the library",
     note="CPU only; package versions are compared for the installed ones.")

prop("E01", "Every metric is the named function of labels and predictions",
     "Accuracy is the share of right predictions, macro-F1 and balanced accuracy average over the classes present in the true labels, whatever the label type, coding or container, and whether predictions come as labels or scores. "
     "No metric depends on sample order or on how classes are numbered, and inputs whose shapes do not fit are refused.",
     ["inputs"], "all label sets, predictions, score matrices, containers and class codings",
     "Tests use one or two tiny arrays; absent classes, one-sided predictions and one-hot inputs combine differently.",
     ["src/modssc/evaluation/**"], [("metrics", "src/modssc/evaluation/metrics.py")],
     tech="runtime monitor: own definitions and invariances on generated label and prediction sets",
     note="Averages follow the definitions the library documents.")

prop("H01", "Search spaces give each configuration once and draws from the stated range",
     "A grid holds every combination exactly once, in an order that does not change; random trials depend only on the seed, lie in the stated range or choice list and follow the stated distribution. "
     "A patch changes exactly the parameters it names. Malformed spaces are refused.",
     ["inputs", "configurations"], "all spaces, nesting, distributions, seeds and trial counts",
     "Tests sample a handful of spaces; the distribution and range must hold over all seeds.",
     ["src/modssc/hpo/**"], [("space", "src/modssc/hpo/space.py"), ("samplers", "src/modssc/hpo/samplers.py"), ("patching", "src/modssc/hpo/patching.py")],
     tech="runtime monitor: own enumeration of the grid, range and frequency monitors on the draws, patch comparison",
     note="Frequencies are judged with margins of many standard deviations.")

prop("K01", "The command line does what the library does and exits by the outcome",
     "Each command stores, reports and prints exactly what the corresponding library call gives on the same input and seed, in a form the library loads back. "
     "Invalid input, unknown names and unasked overwriting end with a non-zero exit and leave existing files unchanged.",
     ["inputs", "configurations"], "all evaluation, sampling, preprocess, graph, dataset and registry commands with valid and invalid options",
     "Tests call the commands with the library replaced by stubs; options passed to the wrong argument show only in real results.",
     ["src/modssc/cli/**"], [("commands", "src/modssc/cli/*.py")],
     tech="runtime monitor: real commands in scratch directories, their output and files judged against the library called directly",
     note="Downloads are replaced by a local data provider.")

prop("R01", "Registries resolve exactly what they list, whatever was registered before",
     "Each listed method, classifier, augmentation, step, model, provider, data set and metric resolves to the component stating that id, and every component the package defines is listed. "
     "Registering again changes nothing, a conflicting or malformed registration is refused and changes nothing, in any order relative to look-ups. Unknown ids are refused, and what is handed out is a copy.",
     ["histories", "inputs"], "all registries, ids and histories of registrations and look-ups, each in a fresh process state",
     "Tests register into a process whose registries are already loaded, in one order.",
     ["src/modssc/utils/registry.py", "src/modssc/inductive/registry.py", "src/modssc/transductive/registry.py", "src/modssc/supervised/**", "src/modssc/data_augmentation/registry.py", "src/modssc/preprocess/**", "src/modssc/data_loader/**", "src/modssc/evaluation/**"],
     [("method registries", "src/modssc/utils/registry.py"), ("classifiers", "src/modssc/supervised/registry.py"), ("augmentations", "src/modssc/data_augmentation/registry.py"), ("steps and models", "src/modssc/preprocess/registry.py, models.py"), ("providers and catalog", "src/modssc/data_loader")],
     tech="runtime monitor: registration and look-up histories in forked, freshly imported processes against a dictionary model; every listed id resolved and asked for its own id",
     note="Custom components are small classes of the harness.")

prop("R02", "Logging never changes a result, and the level asked for is the one that counts",
     "Every request of the library, the command line and the benchmark gives the same result, files, refusals and generator state at each log level, and every message it logs can be formatted. "
     "The last or innermost level set wins over configuration, environment and default, each message comes out once, handlers of the user stay, and unknown levels are refused.",
     ["inputs", "configurations", "histories"], "all parts of the library, requests, log levels and histories of level settings",
     "Tests run at one level with logging captured; a message that consumes the input, draws a number or cannot be formatted shows only at another level.",
     ["src/modssc/runtime/logging.py", "src/modssc/**", "bench/**"], [("levels", "src/modssc/runtime/logging.py"), ("commands", "src/modssc/cli/*.py"), ("runner", "bench/main.py")],
     tech="runtime monitor: the same generated request at every level under a handler that formats every record, outcomes and generator states compared; level settings replayed against a model",
     note="A difference seen only in the first call of a process (lazy imports) is judged by a second sweep.")

prop("R03", "Caches and models live where the environment says, and nowhere else",
     "A cache uses its own variable if set, else its subfolder of MODSSC_CACHE_ROOT, else of the enclosing project's cache folder, else of the user's cache; no two caches share a folder. "
     "A request made without naming a folder writes only into its own caches, and model loaders get the folder and offline switch the environment sets.",
     ["configurations", "inputs"], "all settings of the variables, home and working directories, and all requests using default folders",
     "Tests set one variable at a time and pass folders explicitly.",
     ["src/modssc/runtime/paths.py", "src/modssc/cache/**", "src/modssc/data_loader/cache.py", "src/modssc/graph/cache.py", "src/modssc/preprocess/cache.py", "src/modssc/sampling/**"],
     [("root", "src/modssc/runtime/paths.py"), ("models", "src/modssc/cache/model.py"), ("data sets", "src/modssc/data_loader/cache.py"), ("graphs and views", "src/modssc/graph/cache.py"), ("preprocess", "src/modssc/preprocess/cache.py"), ("splits", "src/modssc/sampling")],
     tech="runtime monitor: generated environments against a stated precedence, every file appearing under real requests attributed to its cache, model loaders recorded on stand-ins",
     note="Model libraries are replaced by recording stand-ins: nothing is downloaded.")

prop("R04", "A missing optional library stops exactly what needs it, and says what to install",
     "With any set of optional libraries missing, every package and command loads, and each request that does not need a missing library gives the result of the complete installation. "
     "One that does raises OptionalDependencyError naming an existing extra, the declared one where a component declares it. Automatic backends and devices take the first available choice.",
     ["configurations", "inputs"], "all sets of missing optional libraries, all parts, components and requests",
     "Tests run with everything installed and patch single imports; what loads, falls back or refuses in a real partial installation is never run.",
     ["src/modssc/dependencies/**", "src/modssc/**/optional.py", "src/modssc/**/errors.py", "src/modssc/supervised/api.py", "src/modssc/runtime/device.py", "src/modssc/cli/app.py"],
     [("optional imports", "src/modssc/dependencies/optional.py"), ("errors", "src/modssc/*/errors.py"), ("classifier choice", "src/modssc/supervised/api.py"), ("graph backend choice", "src/modssc/graph/construction/builder.py"), ("device", "src/modssc/runtime/device.py"), ("doctor", "src/modssc/cli/app.py")],
     tech="runtime monitor: forked processes in which generated sets of libraries cannot be imported and modssc is imported afresh; outcomes compared with the complete environment and a table of needs",
     note="Libraries are made unimportable in the process, not uninstalled; components that would download a model are judged only where they must refuse. graphsage_inductive may refuse with an ImportError naming torch_geometric, as the tests require.")
