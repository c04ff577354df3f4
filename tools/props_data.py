BASE = "base/"
prop("C01", "Byte packing is lossless for every value",
     """Packing any 64-bit integer or any float (including NaN payloads, infinities and signed zeros) into a cell's bytes and unpacking it returns the identical bits.
     The two packing forms (allocating and in-place) agree, and two cells are equal exactly when their bytes are. Rows of number columns turned into matrices hold exactly these values, and other columns are refused.""",
     ["inputs"], "all 2^64 integers and float bit patterns; all byte strings up to 8 bytes for equality",
     "Tests pack a handful of constants; the guarantee is for all 2^64 bit patterns.",
     ["base/conversion.go", "base/bag.go"],
     [("pack/unpack", "base/conversion.go PackU64ToBytes, UnpackBytesToU64, PackFloatToBytes, UnpackBytesToFloat")])
prop("C02", "Grid cells are independent and writes are read back",
     """A value written to a cell of an instance set is what every later read of that cell returns, however cells are addressed, and no write changes any other cell.
     This holds for any mix of float, categorical and binary columns, any number of rows and growth in any number of steps, including binary columns that share bytes.""",
     ["inputs", "histories"], "all cell contents, all write positions, mixes of column kinds and growth steps within the stated sizes",
     "Tests write fixed files and read back a few cells; aliasing of offsets only shows for particular column mixes, growth steps and values.",
     ["base/dense.go", "base/fixed.go", "base/binary.go", "base/group.go"],
     [("offset computation", "base/fixed.go FixedAttributeGroup.set/get, base/binary.go BinaryAttributeGroup.set/get"), ("growth", "base/dense.go Extend/realiseAttributeGroups")])
prop("C03", "Column and class-attribute bookkeeping stays consistent",
     """Each attribute added to an instance set resolves to its own column, names resolve to the columns they were created for, and marking, querying and unmarking class attributes affects exactly the named attributes; class attributes are listed in the order of the columns, and attributes are resolved in the order they are asked for.
     Structure-changing calls that can no longer be honoured are refused with an error instead of corrupting storage.""",
     ["histories", "inputs"], "every sequence of structure operations within the bound, over all column kinds and orders",
     "Tests use one construction order; consistency must hold for every interleaving of adding groups, attributes, class marks and rows.",
     ["base/dense.go", "base/spec.go", "base/fixed.go", "base/binary.go"],
     [("attribute registry", "base/dense.go AddAttribute, GetAttribute, AddClassAttribute, RemoveClassAttribute"), ("resolution", "base/spec.go ResolveAttributes")])
prop("C04", "Row iteration shows exactly what cell reads show",
     """Iterating over the rows of any data grid (dense, matrix-backed, view, lazily filtered) visits each row exactly once with the values a direct read of the same cells returns, in row order where promised.
     Iteration stops at the first request to stop, and an error from the visitor is returned.""",
     ["inputs", "histories"], "all cell contents, all row mappings, all stopping points, every ordered selection of columns within the bounds",
     "Tests iterate over identity-mapped data and never compare iteration with direct reads for every grid type, mapping and stop point.",
     ["base/dense.go", "base/mat.go", "base/view.go", "base/filtered.go"],
     [("iteration", "base/dense.go MapOverRows, base/view.go MapOverRows, base/mat.go MapOverRows, base/filtered.go MapOverRows")])
prop("C05", "Views show the selected rows and columns of their source",
     """A view made from a row mapping, an attribute selection or a visibility list reads, for each of its rows and attributes, exactly the corresponding cell of its source, and reports the matching size, attributes and class attributes.
     Rows or attributes outside the view are not reachable, and class values read through the view are those of the mapped row.""",
     ["inputs"], "all row mappings (including repeated and out-of-order rows), attribute subsets and cell contents within the bounds",
     "Tests build one or two views over iris; correctness must hold for every mapping and selection.",
     ["base/view.go", "base/util_instances.go"],
     [("row/column mapping", "base/view.go resolveRow, Get, GetAttribute, AllAttributes, RowString")])
prop("C06", "Copies are faithful and equality decides content",
     """A dense copy or structural copy of a grid has the same attributes, class attributes and (for dense copies) cells as its source and never shares storage with it.
     Two grids compare equal exactly when they have the same size, the same attributes and the same value in every cell; grids reported compatible really have matching attributes.""",
     ["inputs"], "all cell contents, attribute orders and kinds within the bounds",
     "Tests compare a grid with its own copy; one differing cell anywhere, or a differing attribute, must be noticed.",
     ["base/dense.go", "base/util_instances.go", "base/util_attributes.go"],
     [("copy", "base/dense.go NewDenseCopy, NewStructuralCopy"), ("equality", "base/util_instances.go InstancesAreEqual, CheckCompatible, CheckStrictlyCompatible")])
prop("C07", "Sorting yields the rows in key order and loses none",
     """Sorting an instance set ascending or descending by any list of attributes, in place or lazily, yields a permutation of the original rows in which consecutive rows are in key order: floats by numeric value (any sign), later keys deciding ties of earlier ones.
     Class attributes and untouched columns travel with their rows.""",
     ["inputs"], "all key values (including negative floats), all tie patterns, both directions, all key subsets within the bounds",
     "Tests sort one file of positive floats; ordering must hold for all sign/tie combinations and key lists.",
     ["base/sort.go"],
     [("radix and merge sort", "base/sort.go Sort, LazySort, sortSpecs")])
prop("C08", "Shuffling, splitting and sampling neither lose nor invent rows",
     """For every outcome of the random generator, shuffling returns a permutation of the rows, a train/test split partitions the rows into two disjoint parts of the requested proportion, and sampling with or without replacement returns the requested number of existing rows (distinct when without replacement). Any order, and any row in either part or any place of a sample, can come about.""",
     ["inputs", "schedules"], "every sequence of random draws, every grid size and split ratio within the bounds",
     "Tests run one seed; the guarantee is over all random draws.",
     ["base/util_instances.go"],
     [("index permutation", "base/util_instances.go Shuffle, LazyShuffle, InstancesTrainTestSplit, SampleWithReplacement")])
prop("C09", "Decomposition by value partitions the rows",
     """Splitting a grid by the values of a categorical or binary attribute, or by a numeric threshold, sends every row to exactly the part its value selects, keeps all its other values and keeps the class attributes.
     No part contains a row with a different value and no row is dropped.""",
     ["inputs"], "all cell contents and thresholds within the bounds",
     "Tests decompose one small file at one threshold.",
     ["base/util_instances.go"],
     [("decomposition", "base/util_instances.go DecomposeOnAttributeValues, DecomposeOnNumericAttributeThreshold, decompose helpers")])
prop("C10", "Class distributions count every row exactly once",
     """The class distribution of a grid, overall or conditioned on another attribute or threshold, counts each row exactly once under its class value (and condition), so counts equal the true frequencies and sum to the row count.""",
     ["inputs"], "all assignments of class and attribute values within the bounds",
     "Tests count one file; miscounting can depend on row positions and particular value patterns.",
     ["base/util_instances.go"],
     [("counting", "base/util_instances.go GetClassDistribution, GetClassDistributionByBinaryFloatValue, GetClassDistributionByCategoricalValue")])
prop("C11", "Attributes code values one to one and compare by meaning",
     """A categorical attribute gives each distinct text its own code, never changes a code once given, and maps every code back to its text; float and binary attributes convert between text and cell without changing the value.
     Two attributes are equal exactly when kind, name and categories are; set operations on attribute lists return exactly the set-theoretic result.""",
     ["inputs", "histories"], "all category texts and orders of first use, all names and kinds within the bounds",
     "Tests add a few fixed strings; uniqueness and stability of codes must hold for every order and repetition of texts.",
     ["base/categorical.go", "base/float.go", "base/binary.go", "base/util_attributes.go"],
     [("coding", "base/categorical.go GetSysVal, GetSysValFromString, GetStringFromSysVal"), ("set operations", "base/util_attributes.go AttributeIntersect, AttributeDifference, NonClassAttributes")])
prop("C12", "Serialised data sets load back identically",
     """An attribute, attribute list or instance set written to an archive and read back has the same names, kinds, categories, class attributes and bit-identical cells, whatever the cell values and whichever grid type was written.
     A corrupt or incompatible archive is reported as an error, and writing to an existing path leaves only the new contents. Instances stored without their data come back with their columns and no rows. A file saved in the format's stated version stays readable: its parts keep their names and encodings.""",
     ["inputs"], "all cell contents, attribute names, kinds and shapes within the bounds",
     "Tests round-trip iris; exactness must hold for NaN payloads, bit columns, empty grids, views and any attribute text.",
     ["base/serialize.go", "base/serialize_attributes.go", "base/serialize_instances.go"],
     [("archive format", "base/serialize.go ClassifierSerializer, ClassifierDeserializer"), ("instances", "base/serialize_instances.go SerializeInstances, DeserializeInstances")])
prop("C13", "CSV reading and writing preserve every field",
     """Parsing a CSV file puts every field of every line into the cell of its row and column, with or without a header, with the right column types, and into the attribute groups or template asked for.
     Writing instances as CSV and reading them back gives the same names, class, numbers (to the stated precision) and categories, including text that needs quoting; malformed numbers and files without rows are reported.""",
     ["inputs"], "all field values, header choices, groupings and column orders within the bounds",
     "Tests read a handful of files; the mapping must hold for every value, shape and grouping.",
     ["base/csv.go"],
     [("parsing", "base/csv.go ParseCSVToInstances, ParseCSVToTemplatedInstances, ParseCSVToInstancesWithAttributeGroups, ParseCSVBuildInstances"), ("writing", "base/csv.go SerializeInstancesToCSV")])
prop("C14", "ARFF reading and writing preserve every field",
     """Parsing a dense ARFF file yields the declared attributes in order, declared categories in order, and every data field in its cell, regardless of comments, blank lines, keyword case and spacing the format allows; undeclared categories, malformed numbers, rows with fewer or more values than attributes and files without attributes are errors, and no part of a file is skipped without one.
     Writing instances as dense ARFF and reading them back gives the same attributes and values.""",
     ["inputs"], "all field values, column kinds and layout variations within the bounds",
     "Tests parse two files; the guarantee covers every layout variation and value.",
     ["base/arff.go"],
     [("parsing", "base/arff.go ParseARFFGetAttributes, ParseARFFGetRows, ParseDenseARFFToInstances"), ("writing", "base/arff.go SerializeInstancesToDenseARFF")])
prop("C15", "Conversion filters recode every value faithfully",
     """The binary and float conversion filters turn a many-valued categorical column into one indicator per category (exactly one of them set, the observed one), a one- or two-valued one into 0/1, and leave columns already of the target kind unchanged; floats become bits by whether they are non-zero.
     The resulting attributes have the documented names and the source data is not modified.""",
     ["inputs"], "all cell contents and all mixes of column kinds within the bounds",
     "Tests convert one or two columns of fixed files; one-hot exactness must hold for every category, kind mix and value.",
     ["filters/binary.go", "filters/float.go"],
     [("recoding", "filters/binary.go BinaryConvertFilter.Train/Transform, filters/float.go FloatConvertFilter.Train/Transform")])
prop("C16", "Discretisation maps each number to the interval it lies in",
     """Equal-width binning assigns every value, inside or outside the training range, an existing labelled bin, in order of value and of equal width; each bin has its own label.
     ChiMerge counts every training row once, produces ascending intervals that start at training values and keep all rows, merges neighbours with the same class distribution but not clearly different ones, respects the row limit, and maps values to the interval containing them; other columns pass through.""",
     ["inputs"], "all values and training sets within the bounds",
     "Tests compare one column with a reference file; correctness at interval edges, beyond the training range and for every training set is not sampled.",
     ["filters/binning.go", "filters/chimerge.go", "filters/chimerge_funcs.go", "filters/disc.go"],
     [("binning", "filters/binning.go Train, Transform"), ("chi-merge", "filters/chimerge.go chiMerge, Transform; chimerge_funcs.go")])
prop("C17", "Lazily filtered grids show exactly the transformed data",
     """A lazily filtered grid has its source's rows, the filter's resulting attributes plus the unfiltered ones, and class marks on exactly what the class columns became.
     Every cell, read directly or by row iteration, is the filter's transformation of the source cell (or the source cell itself when unfiltered), also for stacked filters, views, copies, and filters trained on another grid with equal attributes.""",
     ["inputs"], "all cell contents, filter subsets, class subsets and column orders within the bounds",
     "Tests filter iris once; agreement between access paths must hold for every subset of filtered columns and class marking.",
     ["base/filtered.go", "filters/binary.go", "filters/float.go"],
     [("lazy mapping", "base/filtered.go Get, MapOverRows, GetAttribute, AllAttributes, AddClassAttribute, Size, RowString")])
prop("C18", "Confusion matrices and ratings count each prediction once",
     """A confusion matrix built from reference and predicted instances counts each row once, under its true and its predicted class (a missing cell is 0), and refuses grids of different size.
     True/false positives and negatives, precision, recall, F1, micro and macro averages and accuracy derived from any matrix are the textbook ratios of those counts.""",
     ["inputs"], "all class assignments and all count matrices within the bounds",
     "Tests check one two-class example; the formulas must hold for every matrix, including classes that only occur as predictions.",
     ["evaluation/confusion.go"],
     [("counting and ratios", "evaluation/confusion.go GetConfusionMatrix, GetTruePositives..GetAccuracy, GetMicroPrecision, GetMacroRecall")])
prop("C19", "Cross-validation tests every row once and averages correctly",
     """For every random draw, cross-validation assigns each row to exactly one fold (any row may end in any of them), trains on the rows outside the fold, tests on the rows inside it and returns one confusion matrix per fold in order, propagating errors.
     The reported mean and variance are those of the per-fold metric.""",
     ["inputs", "schedules"], "every random fold assignment and every fold metric within the bounds",
     "Tests run one seed and only look at the final number; the partition must hold for every draw.",
     ["evaluation/cross_fold.go"],
     [("fold assignment", "evaluation/cross_fold.go GenerateCrossFoldValidationConfusionMatrices"), ("statistics", "evaluation/cross_fold.go GetCrossValidatedMetric")])
prop("C22", "Distance and kernel functions compute their textbook formula",
     """Every pairwise metric (Euclidean, Manhattan, Chebyshev, Canberra, Cosine, polynomial and RBF kernels) returns its textbook value for any two vectors of equal shape; distances are symmetric, non-negative and zero between a vector and itself.
     The arguments are not modified.""",
     ["inputs"], "all integer vectors up to the stated length and range, all exponents and coefficients within the bounds",
     "Tests compute each metric for one pair of vectors.",
     ["metrics/pairwise/euclidean.go", "metrics/pairwise/manhattan.go", "metrics/pairwise/chebyshev.go", "metrics/pairwise/canberra.go", "metrics/pairwise/cosine.go", "metrics/pairwise/poly_kernel.go", "metrics/pairwise/rbf_kernel.go"],
     [("metrics", "metrics/pairwise/*.go Distance, InnerProduct")])
prop("C20", "Nearest-neighbour classification follows the nearest rows' vote",
     """A KNN classifier predicts, for every row, a class that has most votes among some choice of the K nearest training rows under the chosen distance, whichever search algorithm or optimised path is used and however columns are grouped or ordered.
     The class column is never a feature, and requests that cannot be answered (unknown metric, incompatible data, too few rows) are errors.""",
     ["inputs"], "all feature values, class assignments, K and data layouts within the bounds",
     "Tests score accuracy on iris; a wrong neighbour for particular geometries or layouts is invisible in an accuracy figure.",
     ["knn/knn.go", "knn/knn_opt_euclidean.go", "knn/euclidean.c", "kdtree/kdtree.go", "utilities/utilities.go"],
     [("prediction", "knn/knn.go Predict, vote, canUseOptimisations"), ("optimised search", "knn/knn_opt_euclidean.go, knn/euclidean.c")])
prop("C21", "Searching a k-d tree finds the true nearest points",
     """For any points and target, searching a k-d tree for k neighbours returns k distinct existing points with their true distances, nearest first, and no point left out is nearer than one returned, for every supported distance function.
     Impossible requests (no data, mixed dimensions, too many neighbours) are errors.""",
     ["inputs"], "all point sets, targets and k within the bounds",
     "Tests search three fixed point sets; wrong pruning only shows for particular geometries.",
     ["kdtree/kdtree.go", "kdtree/heap.go"],
     [("search", "kdtree/kdtree.go buildHandle, searchHandle, searchAllNodes"), ("priority queue", "kdtree/heap.go insert, extractMax")])
prop("C23", "Weighted votes and regression use the right neighbours and weights",
     """KNN regression returns the mean of the values of the K nearest rows, and weighted KNN predicts a class with the greatest sum of reciprocal distances among the K nearest rows (an exact match outweighing everything), whether or not optimisations are allowed.""",
     ["inputs"], "all feature values and class assignments within the bounds",
     "Tests run one tiny file; the weighting must hold for all distances, including zero.",
     ["knn/knn.go", "utilities/utilities.go"],
     [("weighting", "knn/knn.go weightedVote"), ("regression", "knn/knn.go KNNRegressor.Predict, utilities/utilities.go SortIntMap")])
prop("C24", "DBSCAN reports exactly the density-connected groups",
     """For every neighbourhood relation, radius and minimum count, DBSCAN puts two core rows in the same cluster exactly when they are density-connected, adds border rows to a cluster within reach, leaves noise out, and never lists a row twice.
     Every cluster reported has the minimum number of rows, and a connected group is left out only if it falls short of it; no rows give no clusters.""",
     ["inputs"], "all neighbourhood relations (distance tables) of up to 4 rows (5 thorough) and all point sets within the bounds",
     "Tests compare one file with a reference labelling; order of visits matters only for particular neighbourhood graphs.",
     ["clustering/dbscan.go"],
     [("expansion", "clustering/dbscan.go DBSCAN, regionQuery, computePairwiseDistances, BitCount")])
prop("C25", "Cluster maps are compared and inverted correctly",
     """Two cluster maps are equal exactly when one is a relabelling of the other over the same points, whatever the identifiers and empty clusters, and a difference is explained by an error.
     Inverting a map gives every point its cluster; maps that list a point twice are refused.""",
     ["inputs"], "all maps within the bounds",
     "Tests compare a few handwritten maps.",
     ["clustering/clustering.go"],
     [("comparison", "clustering/clustering.go Equals, Invert")])
prop("C36", "EM assigns rows to likeliest components and updates them correctly",
     """Mixture prediction assigns every row to exactly one component, one under which it is most likely; the update step sets each component's mean and covariance to those of its rows (keeping the old ones when there are too few), and fitting a single component yields the data's mean and variance from any start.
     Impossible requests are refused.""",
     ["inputs", "schedules"], "all feature values, assignments and random starts within the bounds",
     "Tests fit one file from one seed.",
     ["clustering/em.go"],
     [("assignment", "clustering/em.go Predict, estimateLogProb"), ("update", "clustering/em.go maximization, where, means, shrunkCovariance")])
TREES = "trees/"
prop("C26", "Decision trees split by the measure and answer by their training rows",
     """A decision tree rule picks an attribute (and threshold) that no other beats under its measure: information gain, gain ratio or Gini index. A tree built with it labels every training row with a majority class of the rows that reach the same leaf, sends a query down the branch its values name, and splits while attributes and mixed classes remain.
     Reduced-error pruning never lowers the accuracy on the pruning rows and only removes branches.""",
     ["inputs"], "all cell contents of the training, pruning and query rows within the bounds",
     "Tests look at one tennis example and an accuracy on iris; a wrong measure or branch shows only for particular data.",
     ["trees/id3.go", "trees/gr.go", "trees/entropy.go", "trees/gini.go", "base/util_instances.go"],
     [("rules", "trees/entropy.go InformationGainRuleGenerator, trees/gr.go, trees/gini.go"), ("tree", "trees/id3.go InferID3Tree, Prune, Predict, getNumericAttributeEntropy")])
prop("C27", "CART trees split greedily and answer with their leaves",
     """A CART tree splits a node at the threshold that lowers the criterion (Gini, entropy, squared or absolute error) most, stops only when nothing is gained or the depth is reached, and its leaves answer with a most frequent label or the mean of their rows.
     Grown without limit on distinct values it repeats its training targets, its accuracy is the share of right answers, and unusable data or criteria are errors.""",
     ["inputs"], "all feature values, labels, targets and queries within the bounds",
     "Tests print predictions for two files; a threshold off by one row shows only for particular data.",
     ["trees/cart_classifier.go", "trees/cart_regressor.go", "trees/cart_utils.go"],
     [("classifier", "trees/cart_classifier.go bestSplit, Fit, Predict, Evaluate"), ("regressor", "trees/cart_regressor.go bestSplit, Fit, Predict"), ("helpers", "trees/cart_utils.go")])
prop("C28", "Isolation forests score rows by their average path length",
     """For every random draw, isolation trees split their sample at thresholds between its values until rows are single, equal or deep enough; a row's path length is the number of splits plus the average for the rows left, and its score two to the minus mean path length over the sample's average.
     Scores lie between 0 and 1, equal rows score alike, and the class column plays no part. Any row may be sampled, and any column with different values split on anywhere between them.""",
     ["inputs", "schedules"], "all random draws, sample sizes, depths and rows within the bounds",
     "Tests check one data set and seed for a rough ordering.",
     ["trees/isolation.go"],
     [("trees", "trees/isolation.go buildTree, selectFeature, splitData"), ("scores", "trees/isolation.go pathLength, cFactor, evaluateInstance, Predict")])
prop("C29", "Random trees choose among as many attributes as asked for",
     """Whatever the random draws, a random tree's rule looks at exactly as many different attributes as asked for (or all there are), takes the best of them and always ends (no attribute is left out by design); the tree answers its training rows with a majority class of their leaf.""",
     ["inputs", "schedules"], "all draws and cell contents within the bounds",
     "Tests run one seed on iris and look at an accuracy.",
     ["trees/random.go", "trees/id3.go"],
     [("choice", "trees/random.go RandomTreeRuleGenerator.GetSplitRule"), ("tree", "trees/random.go RandomTree.Fit, Predict; trees/id3.go")])
prop("C30", "Bernoulli naive Bayes picks the class with the greatest posterior",
     """A fitted Bernoulli model gives every query a class for which the prior times the smoothed frequencies of its present and absent features is greatest, forgetting earlier fits; any non-zero byte counts as presence.
     Features that are not binary, data without exactly one class attribute and queries of other widths are refused.""",
     ["inputs"], "all binary training sets and queries within the bounds",
     "Tests check four rows; smoothing and argmax must hold for every table of counts.",
     ["naive/bernoulli_nb.go"],
     [("fit", "naive/bernoulli_nb.go Fit"), ("predict", "naive/bernoulli_nb.go PredictOne, Predict")])
prop("C31", "Bagging trains on the features asked for and takes the majority",
     """A bagged model trains every member on as many different features as asked for, with the class and as many rows as the data, asks it about the same columns (any feature and any row may be among those used), and answers every row with a class most members vote for, whatever the number of processors and the order in which answers arrive; a member's error is returned. No two of its goroutines access the same data unordered. A random forest is such a model of as many trees as asked for, and refuses more features than there are.""",
     ["inputs", "schedules"], "all votes, draws and interleavings within the bounds",
     "Tests run one seeded forest; lost votes or a schedule-dependent answer do not show in its accuracy.",
     ["meta/bagging.go", "ensemble/randomforest.go"],
     [("training", "meta/bagging.go Fit, generateTrainingInstances, generateTrainingAttrs"), ("voting", "meta/bagging.go Predict, generatePredictionInstances")])
prop("C32", "One-vs-all trains one model per class and takes the most confident",
     """A one-vs-all model trains one member per class on all rows with unchanged features and a class that is 1 exactly for that class, and answers with the class whose member is most confident; a member's error is returned.
     Saved and loaded again it has the same members for the same classes and predicts alike.""",
     ["inputs"], "all class assignments and confidences within the bounds",
     "Tests run one data set through liblinear; a swapped or shifted class shows only for particular assignments.",
     ["meta/one_v_all.go"],
     [("training", "meta/one_v_all.go Fit; the one-vs-all filter"), ("prediction", "meta/one_v_all.go Predict"), ("storage", "meta/one_v_all.go SaveWithPrefix, LoadWithPrefix")])
prop("C33", "Saved models load into models that predict the same",
     """Saving a KNN, naive Bayes, decision tree, random forest, bagged or linear SVM model, alone or inside another model under a prefix, and loading it into a fresh model of the same kind restores everything it predicts with (and nothing of the old model is left, also in a multi-class linear SVM): its answers on any rows are those of the original. Models stored in one file do not disturb each other.
     Files that are missing, truncated, of another format, or that hold another kind of model or a bagged model of another size are refused with an error; a random forest takes on the size of the one in its file.""",
     ["inputs", "history"], "all training data, parameters and queries within the bounds",
     "Tests save one trained example per model and look at its predictions on the same file.",
     ["base/serialize.go", "knn/knn.go", "naive/bernoulli_nb.go", "trees/id3.go", "trees/sorter.go", "ensemble/randomforest.go", "meta/bagging.go", "linear_models/linearsvc.go"],
     [("container", "base/serialize.go ClassifierSerializer, ClassifierDeserializer"), ("models", "SaveWithPrefix and LoadWithPrefix of knn/knn.go, naive/bernoulli_nb.go, trees/id3.go, ensemble/randomforest.go, meta/bagging.go, linear_models/linearsvc.go")])
prop("C34", "Linear models use their parameters and pick the right class",
     """Linear SVMs and logistic regression hand the solver exactly the non-zero entries of each row, the labels, the solver kind and the class weights asked for (given, equal or the reciprocal of class frequency), and, like a trained perceptron, answer with the class on whose side of the learned hyperplane a row lies.
     Linear regression fits least squares and predicts intercept plus weighted sum.
     Data they cannot use, unknown options, and predicting before fitting are refused with errors.""",
     ["inputs"], "all feature values, weights, labels and parameters within the bounds",
     "Tests train on one or two files and compare an accuracy; a shifted weight or label shows only for particular data.",
     ["linear_models/", "perceptron/average.go", "ensemble/multisvc.go"],
     [("solver boundary", "linear_models/liblinear.go, linear.cpp predict"), ("models", "linear_models/logistic.go, linearsvc.go, linear_regression.go, perceptron/average.go, ensemble/multisvc.go")])
prop("C35", "Networks propagate, pass back errors and train by the delta rule",
     """Activation sends values along the weights, adds biases and applies each node's function; errors are passed back along the weights times the derivative at each node; and an update moves connected weights by rate times source value times target error and biases by rate times error.
     A layered network connects each layer with the next only, trains by exactly that rule row by row, and predicts its outputs' values or the class with the greatest, also when fitted again.""",
     ["inputs"], "all weights, inputs, errors and rows within the bounds",
     "Tests train XOR from random weights and check the rounded answers; a wrong gradient often still learns it.",
     ["neural/network.go", "neural/layered.go", "neural/funcs.go"],
     [("network", "neural/network.go Activate, Error, UpdateWeights, UpdateBias"), ("layers", "neural/layered.go Fit, Predict"), ("functions", "neural/funcs.go")])
prop("C37", "Data frames become instances with the same columns and values",
     """Converting a data frame yields a grid with its columns under their names, text columns as categories and number columns as floats, every cell holding the frame's value exactly, and the chosen column as the class.""",
     ["inputs"], "all values within the bounds, every layout and class column",
     "No test converts a data frame; lost digits or shifted columns show only for particular values.",
     ["base/dataframe_go.go"],
     [("conversion", "base/dataframe_go.go ConvertDataFrameToInstances")])
prop("C38", "PCA projects centred rows on the axes of greatest variance",
     """Fitting finds the data's mean and principal axes without changing the data; transforming gives any rows their coordinates along these axes relative to the training mean, in order of falling variance, as many as asked for (or all).
     Transforming before fitting and negative numbers of components are refused.""",
     ["inputs"], "all query rows within the bounds, for training data of known axes",
     "Tests compare the size of the result only.",
     ["pca/pca.go"],
     [("model", "pca/pca.go Fit, Transform, FitTransform")],
     note="The training data are a fixed set of designs; the SVD is executed on them, not on symbolic matrices.")
prop("C39", "Failed writes and truncated files are reported, not hidden",
     """If any write fails while instances (archive, CSV or ARFF) or a model (KNN, naive Bayes, decision tree, random forest, one-vs-all, bagged or linear SVM) are saved, saving returns an error; it never reports success for a file that is not whole.
     Loading a file that is cut short at any point returns an error, or yields exactly what was saved; and each entry of an archive is either read whole or reported.""",
     ["inputs", "faults"], "every write that can fail and every point at which a file can end, within the bounds",
     "Tests write to a disk with room and read whole files.",
     ["base/serialize.go", "base/serialize_instances.go", "base/arff.go", "naive/bernoulli_nb.go", "knn/knn.go", "trees/id3.go", "trees/random.go", "ensemble/randomforest.go", "meta/bagging.go", "meta/one_v_all.go", "linear_models/linearsvc.go"],
     [("archives", "base/serialize.go, base/serialize_instances.go"), ("text files", "base/serialize_instances.go SerializeInstancesToCSV, base/arff.go SerializeInstancesToDenseARFF"), ("models", "Save and Load of all models")])
prop("C40", "Printed grids and trees show what they hold",
     """The printed form of instances, views and lazily filtered instances lists the attributes in order with the classes (and only those) starred, and then the first rows, one line each with the row's values in the attributes' order; for instances and views it states the size and how many rows are left out (those after the first 30). A single row's text has exactly the row's values in order.
     A printed decision tree has every node's rule, branch and leaf class in place, indented by level; following the printed text of a CART tree for any row leads to the tree's prediction.""",
     ["inputs"], "all categories, bits and queries within the bounds, every layout, view, filter and tree shape of the bounded sizes",
     "Tests print grids and trees without looking at the text.",
     ["base/dense.go", "base/view.go", "base/filtered.go", "trees/id3.go", "trees/cart_classifier.go", "trees/cart_regressor.go"],
     [("grids", "base String and RowString of dense, view and lazily filtered instances"), ("trees", "DecisionTreeNode.String, CART String")])
prop("C41", "Data and trained models can be shared by readers",
     """Instances, views, lazily filtered instances and matrices can be read by several goroutines at once: reading cells, visiting rows, listing attributes, printing, copying, comparing and making views never access the same memory unordered with a write.
     The same holds for asking one trained classifier (nearest neighbours, naive Bayes, linear regression, decision tree, random forest) or fitting several to the same data: every goroutine gets the answers it would get alone, and predicting leaves the queries, and the classes they list, as they were.""",
     ["schedules", "inputs"], "all pairs of operations, all cells and data within the bounds, and every schedule of two goroutines with one interruption at a lock",
     "Tests use one goroutine, or (in bagging) schedules that happen not to collide; unordered accesses rarely show in results.",
     ["base/dense.go", "base/view.go", "base/filtered.go", "base/mat.go", "base/util_instances.go", "knn/knn.go", "naive/bernoulli_nb.go", "linear_models/linear_regression.go", "trees/id3.go", "ensemble/randomforest.go"],
     [("grids", "base: methods of FixedDataGrid, NewDenseCopy, InstancesAreEqual"), ("models", "Predict of the classifiers, base/util_instances.go GeneratePredictionVector")],
     note="Accesses are ordered by happens-before (goroutine start, locks, wait groups, channels, once, atomics), tracked by the executor for code of the repository; a reported race is confirmed by Go's race detector on the native build.")
