p("P01", "The parallel-for covers every index exactly once and waits for all of it",
  "For every worker count and every length n, the library's parallel-for calls the body on ranges that partition [0,n): no index is skipped, none is given twice, and calls that overlap in time carry different worker numbers below the requested count. It returns only after every call has returned, under every interleaving of the calls.",
  ["schedules", "inputs"], "every interleaving of the body calls; every n >= 0 and worker count, including more workers than indices and counts that do not divide n",
  "One test sums a slice with one shape; it cannot force a slow or reordered worker, and a lost tail chunk or an early return only shows for particular n, worker counts and schedules.",
  ["base/parallel.go"], [("Parallelize chunking and WaitGroup", "base/parallel.go")], ["body callback arguments", "return of Parallelize"])
p("P02", "Cross-validation splitters partition the rows",
  "Every split of a k-fold splitter divides the row indices into a training part and a test part that are disjoint, without repetition, and together all rows; it yields exactly k splits whose test sizes differ by at most one and sum to the number of rows, every row being tested once. A train/test split does the same with the requested test size and keeps every row of X with its own row of Y. With the same seed the splits are the same, and a clone of a splitter yields the same splits.",
  ["inputs", "configurations"], "every number of rows, number of folds, shuffle setting, test size (fraction or count) and seed",
  "Tests print two small examples; off-by-one fold sizes and lost or repeated rows depend on divisibility of rows by folds and on the seed.",
  ["model_selection/split.go"], [("KFold.Split", "model_selection/split.go"), ("TrainTestSplit", "model_selection/split.go")], ["channel of Split values", "returned matrices"])
p("P03", "Cross-validation scores each split with a fresh clone on exactly its rows",
  "Cross-validation fits, for every split, its own fresh clone of the given estimator on exactly that split's training rows and scores it on exactly the test rows (each row with its own targets), and reports result k for split k. The given estimator is never fitted and the data never modified, and the reported scores do not depend on the number of jobs or on the order in which the folds finish.",
  ["schedules", "inputs", "configurations"], "every interleaving of the fold workers, every number of jobs, every splitter output and data set",
  "Tests run one real estimator per configuration without controlling the schedule; a result stored under the wrong fold, a shared clone, or a row/target mix-up shows only for some completion orders or splitters.",
  ["model_selection/validation.go"], [("CrossValidate workers", "model_selection/validation.go")], ["estimator Clone/Fit/Score calls", "CrossValidateResult"])
p("P04", "Grid search tries every combination once and keeps the best",
  "Grid search evaluates every combination of the parameter grid exactly once, each on its own clone carrying exactly that combination, and reports as best the combination with the best mean score; all combinations are scored on the same splits. The retained best estimator carries those parameters, was fitted on its best-scoring split, and predictions are made by it. This holds for every number of jobs and completion order, and the given estimator's own parameters are left as they were.",
  ["schedules", "inputs", "configurations"], "every grid, score assignment, number of jobs and completion order of the candidate evaluations",
  "The example tests run one grid with one winning candidate; ties, last-candidate winners, several jobs and parameters leaking between clones are not reached.",
  ["model_selection/search.go"], [("ParameterGrid", "model_selection/search.go"), ("GridSearchCV.Fit", "model_selection/search.go")], ["SetParam/Fit/Score calls on clones", "BestParams, BestScore, BestIndex"])
p("P05", "A pipeline is the composition of its steps in order",
  "Fitting a pipeline fits each step, in order, on the output of the previous ones (an estimator inside it replaces the targets by its predictions) and the final estimator on the fully transformed data; predicting sends new data through the same fitted transformers in the same order, without refitting them, into the final estimator, and maps predictions back through the transformers' target inverses in reverse order. Each step is fitted exactly once per fit and never when predicting, scoring or cloning. Transforming with a pipeline returns the data with its predictions; its number of outputs is the number of target columns it was fitted on, and it is a classifier when its final estimator is one.",
  ["histories", "configurations"], "every number and kind of steps, every history of fit, predict, score and clone calls",
  "Tests use one scaler with one estimator, for which wrong order, double application or refitting at predict time give nearly the same scores.",
  ["pipeline/pipeline.go"], [("Pipeline.Fit/Predict/Transform", "pipeline/pipeline.go")], ["Fit/Transform/InverseTransform/Predict calls received by the steps", "returned matrices"])
p("P06", "Seeded random sources are reproducible, cloneable and safe to share",
  "Two random sources created with the same seed produce the same sequence, and a clone continues exactly as its original would from the point of cloning while drawing from one never affects the other. The lock-protected source may be drawn from, reseeded and cloned by several goroutines at once: together they receive each value of its sequence exactly once.",
  ["histories", "schedules", "inputs"], "every seed, every sequence of draw, seed and clone operations, every interleaving of concurrent users",
  "The test checks one clone of one source sequentially; state shared between clones and lost or duplicated values need histories and interleavings.",
  ["base/source.go"], [("LockedSource mutex and SourceClone", "base/source.go")], ["values returned by Uint64"])
p("P07", "Scalers apply the affine map of the data they saw, and undo it",
  "The min-max, standard, robust and max-abs scalers map each column by the affine function given by that column's statistics over the rows seen since the last full fit (range, mean and deviation, median and quantile range, largest magnitude), leaving constant columns finite and targets as they are; the robust scaler uses the lower median. For the min-max, standard and max-abs scalers, fitting in batches equals fitting on their concatenation. Inverse-transforming a transform returns the data, and fitting again forgets everything before.",
  ["inputs", "histories", "configurations"], "every data set and column scale, every division of the rows into partial-fit batches, every history of fit, partial fit, reset, transform and inverse calls, every option",
  "Tests fit one small matrix once; batch splits, refits, constant or far-from-zero columns and later batches that widen the range are not reached.",
  ["preprocessing/data.go"], [("MinMaxScaler, StandardScaler, RobustScaler, MaxAbsScaler", "preprocessing/data.go"), ("IncrementalMeanAndVar", "preprocessing/data.go")], ["Transform and InverseTransform outputs"])
p("P08", "Label encoders are exact and invertible",
  "Fitting the label encoder, label binarizer, one-hot encoder or multi-label binarizer records exactly the sorted distinct values of each column; transforming a value seen in fitting gives its position (or the indicator of its position, with the configured negative label and greater positive label), and inverse-transforming gives back exactly the original values, for any number of columns. A value never seen in fitting is coded -1 by the label encoder and as no value at all (all negative) by the others. The label encoder also counts how often each class was seen, over partial fits as over one fit; the multi-label binarizer keeps one sorted table for all label sets.",
  ["inputs", "histories"], "every set of labels (negative, fractional, unsorted, single-class), every number of rows and columns, refits included",
  "Tests encode one column of small consecutive labels, for which class index and class value coincide and column offsets never matter.",
  ["preprocessing/label.go", "preprocessing/data.go"], [("class tables and column offsets", "preprocessing/label.go")], ["Classes, Transform and InverseTransform outputs"])
p("P09", "Row-wise feature transforms compute their definition on every entry",
  "Normalization divides each row (or column) by its l1, l2 or max norm and leaves zero rows alone; binarization compares each entry with the threshold; polynomial features are exactly the requested monomials of each row; the dummy-feature and function transforms, the imputer's replacement of missing entries by the column statistic, and the centering of a kernel matrix are exact on every entry (the median strategy uses the lower median). Where an inverse is defined (polynomial features, function transform) it returns the row. None of them depends on other rows except through the fitted statistics.",
  ["inputs", "configurations"], "every matrix, sign pattern, missing-value pattern and option (degree, interaction only, bias, norm, axis, threshold, strategy)",
  "Tests use one small positive matrix per transform; negative entries, zero rows, missing patterns, other degrees and non-square shapes are not reached.",
  ["preprocessing/data.go", "preprocessing/imputation.go"], [("Normalizer, Binarizer, PolynomialFeatures, Imputer, KernelCenterer", "preprocessing/data.go")], ["Transform outputs"])
p("P10", "Discretizing and shuffling keep rows and order",
  "The bins discretizer sends every value to the bin whose edges enclose it, never outside the configured number of bins and monotonically in the value, with uniform edges equally spaced over the fitted range and quantile edges at the fitted quantiles, and its inverse gives the middle of the bin. The row shuffler applies one permutation to the rows of X and Y together, the same for the same seed, and its inverse restores the original order.",
  ["inputs", "configurations"], "every data set, number of bins, strategy, encoding and seed",
  "Tests print one example per strategy; values on edges or outside the fitted range, unsorted data and repeated permutations are not reached.",
  ["preprocessing/discretization.go", "preprocessing/data.go"], [("KBinsDiscretizer", "preprocessing/discretization.go"), ("Shuffler", "preprocessing/data.go")], ["Transform and InverseTransform outputs"])
p("P11", "Principal components are orthonormal, ordered and invertible",
  "After fitting, the principal axes are orthonormal, the transform is the projection of the data on them, the singular values are non-negative, non-increasing and equal to the lengths of the projected columns, and the explained-variance ratios follow from them and are in [0,1]. With all components kept the inverse transform returns the data, and otherwise its projection on the kept axes.",
  ["inputs", "histories"], "every non-zero data matrix, taller or wider, rank-deficient ones included, every number of kept components, refits included",
  "One example prints two ratios for one matrix.",
  ["preprocessing/pca.go"], [("PCA.Fit via SVD", "preprocessing/pca.go")], ["Transform, InverseTransform, ExplainedVarianceRatio"])
p("P12", "Classification metrics count exactly the pairs of true and predicted labels",
  "The confusion matrix counts, for each pair of the labels occurring among the true and predicted ones, the (weighted) samples with that true and predicted label; accuracy, precision, recall, F-beta and support, per class and micro-, macro- or weighted-averaged, are the ratios defined on those counts, with 0 for an empty denominator, and the support of a class is its (weighted) number of true samples. The result does not depend on the order of the samples.",
  ["inputs", "configurations"], "every pair of label vectors over any labels, every sample weighting, average mode and beta",
  "Tests evaluate one or two label vectors; absent classes, empty denominators, weights and label values that are not 0..k are not reached.",
  ["metrics/classification.go"], [("ConfusionMatrix, PrecisionRecallFScoreSupport", "metrics/classification.go")], ["returned scores"])
p("P13", "Ranking curves and areas follow from the score ordering",
  "ROC and precision-recall curves list, for each distinct score used as a threshold from highest to lowest, the rates of samples scored at least that high; the ROC curve starts at zero false-positive rate (with an extra (0,0) point above the highest score when needed), the precision-recall curve stops once full recall is reached and ends at precision 1, recall 0; the area under the ROC curve is the probability that a positive outranks a negative (ties one half) and average precision is the recall-weighted sum of precisions, each averaged over several label columns as asked (macro, micro, weighted, samples). Only the ordering of the scores matters, and equal scores share one threshold.",
  ["inputs", "configurations"], "every label vector with both classes, every score vector including ties, any positive label, weights",
  "Tests use the textbook 4-sample example; ties, weights and single-sample classes are not reached.",
  ["metrics/ranking.go"], [("binaryClfCurve, ROCCurve, PrecisionRecallCurve, AUC", "metrics/ranking.go")], ["returned curves and areas"])
p("P14", "Regression metrics equal their definitions",
  "R2, mean squared and mean absolute error equal their definitions over the (weighted) samples for each output, and multi-output results are combined as requested (raw values, uniform or variance-weighted average).",
  ["inputs", "configurations"], "every pair of target and prediction matrices with any number of outputs, every sample weighting and multi-output mode",
  "Tests evaluate one 4-sample vector; weights, several outputs and the combination modes are not reached.",
  ["metrics/regression.go"], [("R2Score, MeanSquaredError, MeanAbsoluteError ...", "metrics/regression.go")], ["returned matrices"])
p("P15", "Neighbour search returns exactly the nearest training points",
  "For every query the k-nearest-neighbour search returns k distinct training points, sorted by distance, at distances that are the true distances to those points and such that no other training point is nearer than the last one; the kd-tree and the exhaustive search agree on the distances. The radius search returns exactly the training points within the radius, its boundary included; a bounded kd-tree query reports what it did not find as infinitely far; the neighbour graph has exactly those neighbours (as ones or distances); and the Minkowski and Euclidean distances of any two vectors, the distances of hyper-rectangles and points, and the split and volume of a rectangle, are exact.",
  ["inputs", "configurations"], "every training set (duplicates, collinear, one feature, more points than a leaf), query, k, leaf size, Minkowski order and algorithm",
  "Tests query a handful of points against small trees; pruning errors need particular geometry, leaf sizes or ties.",
  ["neighbors/kdtree.go", "neighbors/unsupervised.go", "neighbors/base.go"], [("KDTree query pruning", "neighbors/kdtree.go"), ("NearestNeighbors.KNeighbors", "neighbors/unsupervised.go")], ["returned distances and indices"])
p("P16", "Neighbour-based predictors vote or average over the true neighbours",
  "The k-neighbour classifier predicts a class with the largest (weighted) vote among the query's k nearest training points, its probabilities are the vote shares and sum to one; the k-neighbour regressor predicts the (weighted) mean of the neighbours' targets for every output; the nearest-centroid classifier predicts a class whose centroid (the class mean, or median for the Manhattan metric) is nearest.",
  ["inputs", "configurations"], "every training set, query, k, uniform or distance weights (including exact hits), number of outputs",
  "Tests predict on one line of points; vote ties, exact hits with distance weights, several outputs and absent classes are not reached.",
  ["neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go"], [("vote and mean over KNeighbors", "neighbors/classification.go")], ["Predict, PredictProba outputs"])
p("P17", "DBSCAN labels are the density-connected components",
  "A sample is reported core exactly when the (weighted) number of samples within eps of it, itself included, reaches the minimum; two core samples share a label exactly when a chain of core samples with steps within eps links them, every other labelled sample has the label of a core sample within eps, samples with no core sample within eps are noise (-1), and labels are 0,1,... without gaps. Refitting starts afresh.",
  ["inputs", "configurations", "histories"], "every data set (duplicates, chains, bridges, all noise), eps, minimum, metric, algorithm, sample weights; refits",
  "One test clusters three well separated blobs, for which any reasonable labelling passes.",
  ["cluster/dbscan.go"], [("DBSCAN.Fit", "cluster/dbscan.go"), ("dbscanInner", "cluster/dbscan.go")], ["Labels, CoreSampleIndices"])
p("P18", "K-means assigns every point to a nearest centroid and centroids to their means",
  "Prediction gives each point the index of a nearest centroid; when fitting stops with no change, each centroid of a non-empty cluster is the mean of the training points assigned to it, so another iteration would change nothing. The result does not depend on the number of jobs or the schedule.",
  ["inputs", "configurations", "schedules"], "every data set and number of clusters, every number of jobs and interleaving of the assignment workers",
  "One test clusters well separated blobs.",
  ["cluster/kmeans.go"], [("KMeans.Fit iteration", "cluster/kmeans.go")], ["Centroids, Predict outputs"])
p("P19", "Gaussian naive Bayes equals its class statistics, batch or incremental",
  "The fitted class priors, per-class feature means and variances are those of the (weighted) samples seen since the last full fit, whatever their division into partial-fit batches, the variances increased by the smoothing constant times the largest feature variance of the last batch; the predicted class maximises prior times Gaussian likelihood and the predicted probabilities are the normalised products. Fitting again starts afresh.",
  ["inputs", "histories", "configurations"], "every data set, class labels, priors, sample weights, division into batches, refits",
  "Tests fit six points once and compare one prediction.",
  ["naive_bayes/naivebayes.go"], [("GaussianNB.PartialFit and updateMeanVariance", "naive_bayes/naivebayes.go")], ["ClassPrior, Theta, Sigma, Predict, PredictProba"])
p("P20", "A support vector machine predicts by its support vectors",
  "After fitting, predictions are determined by the kernel expansion over the retained support vectors (with the configured kernel) and the bias, the classifier answering 1 where it is positive and 0 elsewhere; every dual coefficient of the classifier (trained on labels -1 and +1, both present) lies in [0, C] and the signed coefficients sum to zero up to those dropped below the tolerance; and on separable data the classifier satisfies the optimality conditions to the tolerance. Several outputs are fitted independently, the same as each alone.",
  ["inputs", "configurations"], "every data set, kernel and its parameters, C, number of outputs, number of jobs",
  "Tests check the score of two data sets.",
  ["svm"], [("svmTrain SMO loop", "svm/svm.go"), ("kernels", "svm/svm.go")], ["Model fields, Predict outputs"])
p("P21", "Least-squares linear models satisfy their normal equations",
  "Linear regression and ridge regression return coefficients and intercepts at which the residual (plus the penalty's gradient) is orthogonal to every feature and, with an intercept, sums to zero; predictions are X times the coefficients plus the intercept for every output; and the score is the R2 of those predictions. With an intercept, normalization or scaling a feature changes the parametrization, not the fit; adding outputs changes neither. The gradient-descent regressor (ridge penalty) reaches the same optimum when it converges, and Bayesian ridge ends at the posterior mean, covariance and predictive deviation of its final precisions, themselves those of its evidence iteration.",
  ["inputs", "configurations", "histories"], "every full-rank data set, number of features and outputs, with and without intercept and normalization, refits on the same estimator",
  "Tests fit one random problem and compare the score with a threshold.",
  ["linear_model/Base.go", "linear_model/ridge.go", "linear_model/bayes.go"], [("LinearRegression.Fit, PreprocessData, setIntercept", "linear_model/Base.go")], ["Coef, Intercept, Predict"])
p("P22", "Lasso and elastic net stop at the optimum of their objective",
  "The coefficients returned by lasso and elastic net (single and multi output, cyclic or random selection, positive or not) satisfy the subgradient optimality conditions of the penalised least-squares objective to the requested tolerance; the reported gap is the duality gap at those coefficients, below the tolerance unless the allowed iterations ran out, and never more iterations are reported than allowed; with the positive option no coefficient is negative; a warm start changes the path to the optimum, not the optimum. Each point of a regularization path is the solution for its own penalty.",
  ["inputs", "configurations", "schedules"], "every data set, penalty strength and mix, tolerance, selection rule; every interleaving of the path workers",
  "Tests compare a few coefficients on one data set.",
  ["linear_model/cdfast.go", "linear_model/coordinatedescent.go"], [("enetCoordinateDescent", "linear_model/cdfast.go"), ("EnetPath", "linear_model/coordinatedescent.go")], ["Coef, CDResult, EnetPath results"])
p("P23", "Gradient optimizers follow their update rule at every step",
  "The SGD, Adagrad, AdaDelta, RMSProp and Adam optimizers (with the momentum, decay and clipping that are configured) change the parameters at every step by exactly their update rule given the gradients seen so far, the step count and the configured rates, starting from zero state, for parameters of any shape and for any number of steps.",
  ["histories", "inputs", "configurations"], "every sequence of gradients, parameter shape and hyper-parameter setting",
  "Tests check that one regression converges.",
  ["base/optimizers.go"], [("updaters and timesteps", "base/optimizers.go")], ["parameters after each UpdateParams call"])
p("P24", "Loss functions return their value and its exact gradient",
  "The square and cross-entropy losses (and log loss) return the loss of the predictions activation(X*Theta), divided by the given number of samples, plus the L1/L2 penalty (the square loss halving both; the L1 part being the group norm per feature when there are several outputs), and the gradient they fill in is the derivative of that value with respect to every parameter, with the first feature exempt from the penalty when asked; activation functions and the derivatives they declare agree.",
  ["inputs", "configurations"], "every X, Y, Theta, penalty strength and mix, activation and number of outputs",
  "One test compares a numeric gradient at one random point per loss.",
  ["linear_model/loss.go", "base/activation.go"], [("SquareLoss, CrossEntropyLoss", "linear_model/loss.go"), ("Activation F/Fprime", "base/activation.go")], ["returned J and grad"])
p("P25", "Interpolators pass through their data and are exact on their model class",
  "Linear, cubic-spline and bilinear interpolators return the given value at every given abscissa whatever the order the points were given in, are linear (respectively the natural cubic spline; bilinear) between neighbouring points and continue the end segment outside the range, bridge missing values from their neighbours, never alter the caller's slices, and do not change when the caller reuses those slices.",
  ["inputs", "configurations"], "every set of distinct abscissae in any order, every query inside the range, at the ends and at the knots",
  "Tests evaluate one sine curve at a few points.",
  ["interpolate/interpolate.go", "interpolate/cubic.go"], [("Interp1d, CubicSpline, Interp2d", "interpolate")], ["returned functions' values"])
p("P26", "Gaussian-process kernels and marginal likelihood match their formulas",
  "Every kernel evaluates to its formula on each pair of rows, symmetric with the reported diagonal; sums, products and powers combine their operands; the reported gradient is the derivative with respect to each log hyper-parameter; and setting hyper-parameters on a clone changes that clone only, exactly as asked. The regressor's log marginal likelihood is that of its training data under the kernel, and its gradient is the derivative. After fitting, it predicts the posterior mean, deviation and covariance at new rows (noise levels per row or common, targets centred when asked); before, the prior's.",
  ["inputs", "configurations"], "every pair of matrices (repeated rows included), hyper-parameter values, fixed or free, composition of kernels, history of clones",
  "Tests compare a few printed matrices for one composition.",
  ["gaussian_process/kernels/kernels.go", "gaussian_process/gpr.go"], [("Kernel.Eval/Diag/CloneWithTheta", "gaussian_process/kernels/kernels.go"), ("LogMarginalLikelihood", "gaussian_process/gpr.go")], ["Eval, Diag, Theta, LogMarginalLikelihood results"])
p("P27", "A neural network predicts by its layers and trains by its loss",
  "Prediction is the forward pass through the stored (trained or loaded) weights and activations, turned for classifiers into the original labels by arg-max or 0.5 threshold. Without batch normalization, one step of the sgd or adam solver moves the weights (shrunk first by the weight decay) by its rule along the gradient of the L2-regularised loss on exactly that mini-batch; the loss curve records the row-weighted loss of each epoch; training stops when the loss, or with early stopping the score on rows set aside and never trained on, has not improved by the tolerance for more than the configured number of epochs or at the maximum, and early stopping keeps the best weights. The lbfgs solver never ends above its starting loss. The initial weights depend only on the seed and the layer sizes; a warm start continues from the current weights, any other fit forgets the past. Training leaves the caller's data as it was.",
  ["inputs", "configurations", "histories"], "every architecture, activation, solver, batch size (dividing the rows or not), data set and weights",
  "Tests compare final scores on fixed data; a wrong last batch, stale buffers or stopping rule hardly moves them.",
  ["neural_network/basemlp64.go", "neural_network/multilayer_perceptron.go"], [("forwardPass, backprop, fitStochastic, optimizers", "neural_network/basemlp64.go")], ["Coefs, Intercepts, LossCurve, Predict"])
p("P28", "An estimator's behaviour depends only on its settings and its last fit",
  "Fitting an estimator or transformer again gives the same model as fitting a new one with the same settings; a clone behaves like its original, and after cloning nothing done to one (fitting, partial fitting, refitting) is observable through the other. This holds for every estimator and transformer of the library and every history of such calls.",
  ["histories", "configurations"], "every sequence of clone, fit, refit and predict or transform calls on originals and clones, with data sets of different shapes",
  "Tests fit each estimator once on one data set and clone at most to check the type.",
  ["linear_model", "preprocessing", "neighbors", "cluster", "naive_bayes", "svm", "neural_network", "gaussian_process", "pipeline"], [("PredicterClone/TransformerClone and Fit of each estimator", "all packages")], ["Predict/Transform outputs after each call"])
p("P29", "Calls never modify their inputs and see only the matrix they were given",
  "Fitting, transforming, predicting, scoring and computing metrics leave the matrices and slices passed in unchanged, and give the same results whether the same values come as a packed dense matrix, as a view into a larger matrix (touching nothing outside the view), or as any other matrix type. Results written into a caller-supplied receiver equal those returned when none is supplied.",
  ["inputs", "configurations"], "every estimator, transformer and metric; every memory layout of the same values; with and without a receiver",
  "Tests only pass packed dense matrices and rarely look at the inputs afterwards.",
  ["base/matrix.go", "preprocessing", "metrics", "linear_model", "neighbors", "cluster", "naive_bayes", "svm"], [("ToDense/FromDense and stride handling", "base/matrix.go")], ["inputs after the call", "outputs per layout"])
p("P30", "Matrix adapters read and write exactly the cells they denote",
  "The matrix helpers (row slices, transposition, prepended column of ones, constant matrices, dense row, column and block slices, conversion to and from dense matrices, printing) present exactly the denoted cells, however they are nested: reading a cell of an adapter reads the corresponding cell of the underlying matrix, writing one changes exactly that cell and nothing around it, a row outside the adapter is refused, conversions preserve shape and values (an empty receiver takes the shape), and the dimension check accepts exactly the fitting shapes.",
  ["inputs", "histories"], "every shape, offset, stride, index and nesting of adapters; every sequence of reads and writes through them",
  "Tests touch one 2x2 example of some adapters.",
  ["base/matrix.go"], [("MatRowSlice, MatTranspose, MatOnesPrepended, MatDenseSlice, ToDense, FromDense", "base/matrix.go")], ["At, Set, Dims"])
p("P31", "Dataset readers return exactly the file, and generators what was asked",
  "Reading an Octave binary file, plain or gzipped, returns exactly the matrices stored in it under their names (the last of a repeated name), however the bytes are chunked on the way; the bundled data sets return exactly the numbers and names of their files, each row with its own target. Generated regression data have the requested shapes and targets equal to the informative features times the returned coefficients plus the bias; generated blobs have the requested shapes, each sample lies around the centre of its label with the requested deviation (drawn centres inside the box), and the configuration is left as it was. The same seed gives the same data.",
  ["inputs", "configurations", "schedules"], "every file content within the format, every chunking; every requested size, number of centres, bias, deviation and seed",
  "Tests load the bundled files once and print the first rows, and look only at the shape of generated data.",
  ["datasets/base.go", "datasets/octave.go", "datasets/samples_generator.go"], [("LoadOctaveBin", "datasets/octave.go"), ("MakeRegression, MakeBlobs", "datasets/samples_generator.go"), ("loadCsv, loadJSON", "datasets/base.go")], ["returned matrices"])
p("P32", "Logistic regression ends at the optimum of its objective",
  "For labels in one column (or a 0/1 indicator matrix), after fitting, logistic regression's predicted probabilities are the logistic (two-class) or softmax (multi-class) function of X times the coefficients plus the intercept and sum to one, the predicted class is the most probable one in the original labels, and the coefficients are a stationary point of the penalised log-loss up to the solver's tolerance, from any seed and whatever was fitted before.",
  ["inputs", "configurations", "histories"], "every data set and label values, penalty strength, seed and refit history",
  "Tests check one decision boundary.",
  ["linear_model/logistic.go"], [("LogisticRegression.Fit/forwardPass", "linear_model/logistic.go")], ["Coef, Intercept, PredictProbas, Predict"])
p("P33", "Quantile and power transforms follow their monotone maps",
  "The quantile transformer maps each column by the non-decreasing piecewise-linear function sending its evenly spaced fitted quantiles to evenly spaced ranks, kept within [1e-7, 1-1e-7] (between the two ranks at a repeated quantile). The power transformer applies the Yeo-Johnson or Box-Cox formula with a per-column exponent at which the likelihood of the training column is (locally) greatest, standardized over that column when asked, and its inverse returns the data.",
  ["inputs", "configurations", "histories"], "every column (ties, repeated quantiles, values outside the fitted range), number of quantiles, method and standardization, refits included",
  "Tests transform one column each and compare a few printed numbers; ties, values beyond the fitted range and the inverse are not reached.",
  ["preprocessing/data.go"], [("QuantileTransformer", "preprocessing/data.go"), ("PowerTransformer", "preprocessing/data.go")], ["Transform and InverseTransform outputs", "Lambdas"])
p("P34", "Loss minimisation uses every sample each epoch and returns its best parameters",
  "With a gradient solver, LinFit starts from the parameters of the initializer and in every epoch goes through all samples exactly once, in batches of the configured size (the last one smaller), each time stepping the solver along the gradient of the configured loss, penalty and activation on that batch; the recorder, if any, is told the parameters and the loss over all samples at the start and after every epoch, and the result holds the parameters with the lowest such loss among the epoch ends together with their loss. With an optimisation method, one output at a time or all together, the gradient of the loss (square or cross-entropy with an L2 penalty) vanishes at the returned parameters and the returned J is their loss.",
  ["inputs", "configurations", "histories"], "every data set, batch size, number of epochs, solver setting, loss, penalty and number of outputs",
  "Tests fit one or two data sets and compare the final score.",
  ["linear_model/Base.go"], [("LinFit", "linear_model/Base.go"), ("LinFitGOM", "linear_model/Base.go")], ["LinFitResult Theta and J", "calls of the loss function", "Recorder events"])
