"""The properties, and how each is decided. gen.py writes properties.jsonl and MANIFEST.json from this."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


RU = "src/learning/toolkit/rand_utils.rs"
AF = "src/learning/toolkit/activ_fn.rs"
# ------------------------------------------------------------------ toolkit
prop("R01", "A reservoir sample is a duplicate-free, in-range subset of the pool",
     "Drawing a reservoir sample of size k from a pool of n >= k items returns exactly k items, and every item of the pool appears in the sample at most as often as it appears in the pool. The pool itself is left unchanged. The sampling never panics or reads outside the pool, for any stream of random numbers.",
     ["inputs", "histories"], "every pool (empty, one item, duplicates, any length), every sample size up to the pool size, every stream of random words including the extreme ones",
     "The single unit test draws one sample from one five-item pool and looks at its length and membership; the claim is over all pools, sizes and random streams.",
     [RU], [("reservoir_sample replacement step", RU + ": reservoir_sample")],
     "online assertion monitor on every sampled output, random and extreme-word RNG streams",
     "Counts every sampled item against the pool over thousands of pools, sizes and streams, with a seedable rand stand-in that can also inject all-ones/all-zeros words.", ["return value of reservoir_sample"])
prop("R02", "A reservoir sample is uniform over the pool",
     "Every item of the pool has the same probability k/n of being in a reservoir sample of size k, whatever its position in the pool. Every pair of items is drawn together with the same probability. Successive draws, and draws of different threads or processes, are independent.",
     ["inputs", "histories"], "every pool size n, sample size k and item position; the probability is over the random stream",
     "A test sees one draw; a bias in the replacement index (an off-by-one in the range) changes only frequencies and leaves every single draw valid.",
     [RU], [("replacement index range", RU + ": reservoir_sample")],
     "statistical monitor (chi-square and binomial tests) over recorded sampling histories",
     "Inclusion and pair counts over several hundred thousand seeded draws per run; alarm threshold 7 sigma, so a false alarm needs p < 1e-11.", ["inclusion counts per position and per pair"])
prop("R03", "Shuffles return a permutation of their input",
     "Shuffling a slice, in a copy or in place, yields exactly the same multiset of items and nothing else: no item is lost, duplicated or invented. The copying form leaves its source unchanged and returns as many items as the source has. Both accept empty and one-item slices.",
     ["inputs", "histories"], "every slice of every length and item type, every stream of random words",
     "The tests shuffle one five-item array; the copying shuffle writes into uninitialised memory, so its safety depends on every index it can draw.",
     [RU], [("inside-out and in-place Fisher-Yates loops", RU + ": fisher_yates, in_place_fisher_yates")],
     "online assertion monitor (multiset conservation), random and extreme-word RNG streams",
     "Multiset conservation on every shuffle executed, lengths 0 to thousands, including Copy types where uninitialised items would show.", ["return value of fisher_yates", "slice after in_place_fisher_yates"])
prop("R04", "Shuffles are uniform over all orderings",
     "Every ordering of the input is equally likely after a shuffle, in a copy or in place. In particular every item is equally likely to land in every position. Successive shuffles, and shuffles of different threads or processes, are independent.",
     ["inputs", "histories"], "every slice length and (item, position) pair; the probability is over the random stream",
     "A test sees one permutation; a biased index range (Sattolo's cycle, an excluded last index) still produces valid permutations.",
     [RU], [("swap index range", RU + ": fisher_yates, in_place_fisher_yates")],
     "statistical monitor over recorded shuffle histories (all orderings for short slices, item-by-position counts for long ones)",
     "All n! orderings for n <= 5 and item-by-position tables up to n = 60; alarm threshold 7 sigma.", ["frequency of each ordering"])
prop("A01", "Activation functions compute their defining formula",
     "The sigmoid, linear, exponential and tanh activations return 1/(1+e^-x), x, e^x and tanh x for every finite input, within floating-point accuracy, and are monotone. The sigmoid stays within [0, 1] and tanh within [-1, 1], and neither ever returns NaN for a finite or infinite input.",
     ["inputs"], "every f64, from subnormal to +-MAX and the infinities",
     "No unit test covers the activation functions at all, and their failure modes are at extremes (overflow of e^x, cancellation near 0).",
     [AF], [("func implementations", AF + ": Sigmoid, Linear, Exp, Tanh")],
     "differential monitor against independently written closed forms over swept and random inputs",
     "Dense sweeps, random magnitudes from 1e-300 to 1e300 and the special values; relative accuracy 1e-12.", ["return value of func"])
prop("A02", "Activation gradients are the derivatives of the activations",
     "For every activation function the gradient at x is the derivative of the function at x. Computing the gradient from the function's output gives the same value as computing it from the input, wherever the output determines the input.",
     ["inputs"], "every activation and every finite x",
     "Untested; a wrong derivative still trains a network, only badly.",
     [AF], [("func_grad and func_grad_from_output pairs", AF)],
     "differential monitor: numeric differentiation and closed forms against the reported gradients",
     "Central differences at two step sizes and closed forms, on sweeps and random inputs.", ["return values of func_grad and func_grad_from_output"])
CF = "src/learning/toolkit/cost_fn.rs"
prop("C01", "Cost functions equal their definition and their gradient matches",
     "The mean squared error is the sum of squared differences over twice the number of rows (matrices) or items (vectors), and the cross entropy is the mean over rows of the summed binary cross entropies. The gradient each cost function reports for outputs and targets is the derivative of that row's contribution, before averaging, with respect to each output entry. An output that equals its target of 0 or 1 exactly costs nothing in the cross entropy, and its gradient there is the one-sided derivative. Neither depends on the order of the rows.",
     ["inputs"], "every shape, every finite outputs and targets (for cross entropy outputs strictly inside (0, 1), or equal to a target of 0 or 1)",
     "There are no tests of the cost functions; training with a wrong one still converges to something.",
     [CF], [("cost and grad_cost", CF + ": MeanSqError, CrossEntropyError")],
     "differential monitor: entrywise recount and numeric differentiation",
     "Recount in the harness's own arithmetic, and central differences of the reported cost against the reported gradient.", ["cost and grad_cost return values"])
RG = "src/learning/toolkit/regularization.rs"
prop("C02", "The regularization cost and gradient belong together",
     "The reported regularization gradient is the gradient of the reported regularization cost, for the L1, L2, elastic-net and empty regularizers at every weight matrix away from zero. The cost is never negative, is zero for zero weights, and the gradient has the shape of the weights.",
     ["inputs"], "every weight table (also one embedded in a larger one), strength and kind",
     "The tests compare with fixed numbers on one table and pin the current L2 value.",
     [RG], [("reg_cost / reg_grad", RG + ": Regularization")],
     "differential monitor: numeric differentiation and recount",
     "Every gradient coordinate is compared with the difference quotient. One known finding: the L2 cost uses the unsquared norm.", ["reg_cost, reg_grad"])
KE = "src/learning/toolkit/kernel.rs"
prop("K01", "Kernels compute their closed form",
     "Each kernel (linear, polynomial, squared exponential, exponential, hyperbolic tangent, multiquadric, rational quadratic) evaluates its documented formula on any two equally long vectors. A sum or product of kernels evaluates to the sum or product of its parts, at any nesting.",
     ["inputs", "configurations"], "every kernel, parameter setting, vector pair and combination",
     "Each kernel is tested on one or two pairs with one parameter setting.",
     [KE], [("Kernel::kernel implementations and KernelArith", KE)],
     "differential monitor against independently written closed forms",
     "Random parameters, vector lengths 1 to 12 and nested combinations, relative accuracy 1e-10.", ["kernel return value"])
prop("K02", "Kernels are symmetric and the Mercer kernels are positive semidefinite",
     "Every kernel gives the same value when its two arguments are exchanged. The Gram matrix of the linear, squared exponential, exponential and rational quadratic kernels, and of the polynomial kernel with integer degree and non-negative offset, on any finite point set is positive semidefinite up to rounding. Distance-based kernels depend on the two points only through their distance.",
     ["inputs", "configurations"], "every finite point set, every parameter setting",
     "Pair tests cannot see definiteness, which is a property of whole point sets.",
     [KE], [("Kernel implementations", KE)],
     "metamorphic monitor: argument exchange, common translation and Gram-matrix eigenvalue oracle",
     "Jacobi eigenvalues of the observed Gram matrices, including duplicated and nearly equal points.", ["Gram matrices of kernel values"])
# ------------------------------------------------------------------ stats
GA, EX, DM = "src/stats/dist/gaussian.rs", "src/stats/dist/exponential.rs", "src/stats/dist/mod.rs"
prop("D01", "Densities, log densities and distribution functions are mutually consistent",
     "The Gaussian and exponential distributions report the density, log density and cumulative probability of their textbook definition for every parameter and point (the Gaussian cumulative probability to within 0.004; the exponential distribution refuses negative points with a panic). The cumulative probability never decreases, stays within [0, 1], and tends to 0 and 1; the log density is the logarithm of the density. The reported parameters are the ones given, and a standard deviation s means the same distribution as a variance s squared.",
     ["inputs", "configurations"], "every admissible parameter and every point, including far tails",
     "The documentation examples check four points of one Gaussian and one exponential.",
     [GA, EX, DM], [("pdf, logpdf, cdf", GA + ": Gaussian"), ("pdf, logpdf, cdf", EX + ": Exponential"), ("default logpdf", DM + ": Distribution")],
     "differential monitor against series/continued-fraction erf and closed forms; monotonicity monitor on sorted sweeps",
     "erf computed independently to 1e-14; sweeps over +-40 standard deviations, scales 1e-150..1e150.", ["pdf, logpdf, cdf"])
prop("D02", "Sampling follows the distribution that is reported",
     "Samples drawn from a Gaussian or exponential distribution follow exactly the distribution its parameters describe, for every parameter and any source of uniform random words. Drawing repeatedly gives independent values, and drawing through either sampling interface with the same random stream gives the same values.",
     ["inputs", "histories", "configurations"], "every parameter, every random source; the law is over the random stream",
     "Nothing tests sampling; a confusion of variance with standard deviation or rate with scale is invisible at the unit parameters the examples use.",
     [GA, EX], [("Sample / IndependentSample implementations", GA + ", " + EX)],
     "statistical monitor over recorded samples (Kolmogorov-Smirnov, lag independence) plus same-stream equality",
     "Kolmogorov-Smirnov on tens of thousands of samples per parameter setting at several RNGs; alarm at p < 1e-11.", ["sample, ind_sample"])
# ------------------------------------------------------------------ knn
BT, KM = "src/learning/knn/binary_tree.rs", "src/learning/knn/mod.rs"
prop("N01", "Tree searches return the true nearest neighbours",
     "For every training set, query point and k not above the number of training rows, the KD-tree and the ball-tree search return k distinct training rows whose distances are the k smallest Euclidean distances to the query, nearest first, exactly as the exhaustive search does. This holds for every leaf size and every data set, with duplicated, collinear, constant or widely scaled points. Building the tree always ends.",
     ["inputs", "configurations"], "every data set, query, k and leaf size",
     "The tests use two fixed data sets of a dozen points with k up to 5 and the default leaf size; pruning errors need particular geometry, k and leaf size together.",
     [BT, KM, "src/learning/knn/brute_force.rs"], [("branch pruning bound", BT + ": search, KDTreeBranch/BallTreeBranch dist"), ("k-nearest container", KM + ": KNearest::add"), ("split selection", BT + ": select_split")],
     "differential monitor: every search against an independent exhaustive oracle",
     "Structured hostile point sets (ties, duplicates, grids, lines, clusters), leaf sizes 1 to 40, every k.", ["indices and distances returned by search"])
prop("N02", "The k-nearest-neighbour classifier returns the majority label of the neighbours",
     "For every query row the classifier answers with a label that is most frequent among the labels of the k nearest training rows, the smallest such label when several are equally frequent. One answer is given per query row, in order, and the answer does not depend on which search structure is used, when the neighbours are determined without ties.",
     ["inputs", "configurations"], "every training set, labels, k, search structure and query batch",
     "One test classifies three iris rows with k=1..3.",
     [KM], [("majority vote", KM + ": KNNClassifier::predict, count_freq, fold")],
     "differential monitor: vote recount over an exhaustive neighbour oracle",
     "Ties in distance are handled by accepting any admissible neighbour set; ties in votes are decided exactly.", ["predict output"])
# ------------------------------------------------------------------ clustering
KS = "src/learning/k_means.rs"
prop("M01", "k-means assigns to the nearest centroid and moves centroids to cluster means",
     "After training with n iterations from given starting centroids, the centroids are those that n rounds of assigning each row to its nearest centroid and replacing every centroid with the mean of its rows give (a centroid without rows stays where it is; rounds end early only once the total squared distance no longer changes, that is by less than 1e-14). Prediction labels every row with the index of a nearest centroid. The total squared distance of the rows to their nearest centroid never grows from one iteration to the next.",
     ["inputs", "configurations", "histories"], "every data set, starting centroids and iteration count",
     "The test fits two well-separated pairs of points, where any assignment rule works.",
     [KS], [("assignment", KS + ": KMeansClassifier::find_closest_centroids"), ("update", KS + ": KMeansClassifier::update_centroids")],
     "lockstep reference monitor: an independent Lloyd iteration, plus online monotonicity of the inertia",
     "Starting centroids are injected through the public initializer trait, so that clusters that lose all their rows are part of the workload.", ["centroids, predict"])
prop("M02", "k-means initializers produce k usable starting centroids",
     "The Forgy initializer returns k different training rows, each choice equally likely; the random-partition initializer returns the means of k non-empty groups that partition the rows; k-means++ returns training rows, the next one drawn with probability proportional to the squared distance to the nearest already drawn. All return k rows of the data's width for every data set with at least k distinct rows, and starting centroids of the wrong shape are refused with an error.",
     ["inputs", "histories", "configurations"], "every data set and k; the law is over the random stream",
     "Initializer tests look only at the shape of the result on one data set.",
     [KS], [("Forgy, RandomPartition, KPlusPlus", KS), ("weighted draw", KS + ": sample_discretely")],
     "online assertion monitor on initial centroids, partition-existence oracle, and a statistical monitor of the draw frequencies",
     "Draw frequencies against exact probabilities on small point sets; 7 sigma threshold.", ["init_centroids"])
DB = "src/learning/dbscan.rs"
prop("B01", "DBSCAN clusters are the density-connected components",
     "With a given radius and minimum count, two core rows (rows with at least the minimum count of rows closer than the radius, themselves included) get the same label if and only if a chain of core rows each closer than the radius to the next connects them, and labels count up from 0. Any other row closer than the radius to a core row gets the label of such a core row, and a row that is not so close to any core row is noise. This holds for clusters of any number of rows. Predicting a new row gives the label of the nearest training row if that is closer than the radius, and noise otherwise.",
     ["inputs", "configurations"], "every data set, radius and minimum count",
     "Two tests on six-point sets.",
     [DB], [("cluster expansion", DB + ": DBSCAN::expand_cluster, region_query")],
     "offline checker: connected components of the core graph recomputed from the data and compared with the labels",
     "Chains, grids, rings and random sets; distances exactly at the radius are part of the workload. Clusters of up to 6000 (thorough: 12000) rows in a thread with a 512 KiB stack.", ["clusters, predict"])
GM = "src/learning/gmm.rs"
prop("G01", "Gaussian mixture training follows expectation maximisation",
     "Training starts from distinct rows, every row equally likely. After it, every component's weight, mean and covariance are the responsibility-weighted proportion, mean and covariance of the training rows under the previous round's parameters. The weights are a probability vector, covariances are symmetric (diagonal when so configured), and predicted memberships are non-negative, sum to 1 in every row and equal the normalised weighted densities.",
     ["inputs", "configurations", "histories"], "every data set, component count, covariance option and iteration count",
     "Tests check that training one small set succeeds and that means can be read.",
     [GM], [("E and M steps", GM + ": membership_weights, update_gmm_params, compute_cov"), ("initialisation", GM + ": initialize_covariances")],
     "lockstep reference monitor: training runs of n and n+1 rounds compared with an independent EM step; invariants on predictions",
     "The same random stream is replayed for n and n+1 rounds, so every round is checked as one step.", ["means, covariances, mixture weights, predict"])
# ------------------------------------------------------------------ linear models
PC = "src/learning/pca.rs"
prop("P01", "Principal components are orthonormal directions of decreasing variance",
     "The learned components (columns; rows when there are fewer training rows than columns) are orthonormal, diagonalise the covariance of the training data and are ordered by decreasing variance; the first n requested components capture as much variance as any n directions can. Prediction is the (centred, when centring) data projected on the components, with as many columns as components. Centring makes the result independent of a shift of all rows.",
     ["inputs", "configurations"], "every training matrix (tall, wide, rank deficient), centring choice and component count up to the rank",
     "Tests use two fixed matrices.",
     [PC], [("singular value decomposition and component selection", PC + ": PCA::train"), ("projection", PC + ": PCA::predict")],
     "invariant monitor: orthonormality, covariance diagonalisation, captured variance against an independent Jacobi eigensolver",
     "Sign and rotation freedoms are respected, so any valid decomposition passes.", ["components, predict"])
LR = "src/learning/lin_reg.rs"
prop("L01", "Linear regression finds the least squares solution",
     "Exact training gives parameters (intercept first) for which the residuals are orthogonal to every input column and sum to zero, so no other parameters have a smaller squared error; prediction is the intercept plus the weighted inputs. The parameters are equivariant under scaling, shifting and permuting of targets, columns and rows. Training by gradient descent optimises the same squared error.",
     ["inputs", "configurations"], "every full-column-rank training set and query",
     "Tests fit a line to three points and one data set.",
     [LR], [("normal equations", LR + ": LinRegressor::train"), ("cost and gradient", LR + ": compute_grad")],
     "optimality monitor (residual orthogonality, perturbation) and metamorphic monitor",
     "Condition-aware tolerances; data sets up to 60 rows and 8 columns.", ["parameters, predict"])
LG = "src/learning/logistic_reg.rs"
prop("L02", "Logistic regression optimises the log-likelihood and predicts probabilities",
     "The cost and gradient used for training are the mean cross entropy of sigmoid predictions and its derivative in every parameter, including the intercept. Training hands the optimiser all rows with their own targets and one starting value per parameter, keeps exactly what the optimiser returns, never depends on the row order beyond rounding, and prediction is the sigmoid of the intercept plus the weighted inputs, in [0, 1].",
     ["inputs", "configurations"], "every data set with 0/1 targets, every parameter vector and query",
     "One test with one separable set.",
     [LG], [("cost and gradient", LG + ": BaseLogisticRegressor::compute_grad"), ("prediction", LG + ": predict")],
     "differential monitor through a recording optimisation algorithm; numeric differentiation",
     "A harness-supplied optimisation algorithm captures the model's cost and gradient at arbitrary parameters.", ["compute_grad, parameters, predict"])
GL = "src/learning/glm.rs"
prop("L03", "Generalised linear models reach the maximum likelihood estimate",
     "When training converges, the parameters (intercept first) solve the likelihood equations of the chosen family: the inputs weighted with the score residuals sum to zero in every column. Each link function and its inverse undo each other, and prediction is the mean the link gives for the linear predictor.",
     ["inputs", "configurations"], "every family (normal, Bernoulli, Poisson), non-separable data set and query",
     "Tests fit four fixed data sets and compare with rough expectations.",
     [GL], [("iteratively reweighted least squares", GL + ": GenLinearModel::train"), ("link functions", GL + ": LinkFunc implementations")],
     "optimality monitor (score equations) and link/inverse round trips",
     "Score equations on data sets where the estimate exists, checked in the harness's arithmetic.", ["parameters, predict"])
GP = "src/learning/gp.rs"
prop("H01", "Gaussian process predictions are the conditional mean and covariance",
     "After training, the predicted mean is the prior mean plus the cross-kernel times the inverse of the (noise-augmented) kernel matrix times the centred targets, and the posterior covariance is the prior covariance minus the explained part. The posterior covariance is symmetric, positive semidefinite up to rounding and never above the prior variance; with vanishing noise the mean passes through the training targets.",
     ["inputs", "configurations"], "every kernel, mean function, noise level, training set and query",
     "One test checks that training and predicting succeed.",
     [GP], [("posterior", GP + ": GaussianProcess::get_posterior, train, predict")],
     "differential monitor: independent dense solve of the conditional Gaussian",
     "Independent Gaussian elimination; conditioning-aware tolerances.", ["get_posterior, predict"])
SV = "src/learning/svm.rs"
prop("S01", "The support vector machine follows the kernelised subgradient method",
     "Prediction labels every row -1 or 1 by the sign of the kernel expansion over the support vectors learned, and depends on the training data only through kernel values. Training on linearly separable, well-scaled data with enough iterations separates it, and the learned expansion does not depend on rows never drawn.",
     ["inputs", "configurations"], "every kernel, regularisation strength, iteration count, training set and query",
     "One test on two points.",
     [SV], [("training loop", SV + ": SVM::train"), ("decision function", SV + ": SVM::predict")],
     "lockstep reference monitor: an independent Pegasos run on the rows a recording kernel saw drawn, and prediction recount",
     "The seedable rand stand-in lets the reference draw the same rows.", ["predict"])
NB = "src/learning/naive_bayes.rs"
prop("Y01", "Naive Bayes learns the class statistics of the training data",
     "After training, each class prior is the class's share of the rows; the Gaussian variant's means and variances are the per-class column means and sample variances, the Bernoulli variant's and multinomial variant's log probabilities are those of the smoothed per-class frequencies (pseudo-count 1). Row order has no influence. Training data it cannot use (no class named for a row, one row in a Gaussian class, another number of targets than rows) is refused and leaves the learned model as it was.",
     ["inputs", "configurations"], "every data set in which each class has no rows or enough (for Gaussian: at least two), each variant",
     "Each variant is trained on one small table.",
     [NB], [("class grouping and parameter update", NB + ": NaiveBayes::train, update_params")],
     "differential monitor: recount of the class statistics",
     "Every learned parameter is recomputed from the rows.", ["class_prior, distr"])
prop("Y02", "Naive Bayes predicts the class with the highest posterior",
     "Every row is answered with a one-hot row naming a class whose log prior plus summed log likelihood under the learned parameters is largest. The reported log probabilities are those sums (minus infinity for a class without training rows), so permuting columns in training and query alike changes no decision. For the Gaussian variant this concerns classes in which every column varies, for the Bernoulli variant entries 0 and 1, for the multinomial variant counts.",
     ["inputs", "configurations"], "every variant, trained model and query row",
     "Each variant is asked for one small table.",
     [NB], [("joint log likelihood", NB + ": joint_log_lik"), ("argmax", NB + ": get_classes / predict")],
     "differential monitor: log posterior recomputed from the data",
     "Near-ties (relative 1e-9) may fall either way.", ["predict, get_log_probs"])
# ------------------------------------------------------------------ optimisers
GD, CG = "src/learning/optim/grad_desc.rs", "src/learning/optim/fmincg.rs"
prop("O01", "Gradient descent takes exactly the steps it defines",
     "Batch gradient descent starts at the given point and repeatedly moves by minus the step size times the gradient at the current point, at most the configured number of times. It stops early when the cost no longer changes from one step to the next, and only then, and returns the last point it reached. The model is asked for gradients only at the points visited, always with the whole data.",
     ["inputs", "histories", "configurations"], "every model, start, step size and iteration count",
     "Two tests minimise a parabola and look at the end point.",
     [GD], [("update and stopping rule", GD + ": GradientDesc::optimize")],
     "trace monitor: the recorded sequence of gradient queries against the update rule",
     "A recording model logs every query; the whole trajectory is replayed.", ["sequence of compute_grad calls, result"])
prop("O02", "Stochastic gradient descent visits every example once per epoch",
     "In every epoch stochastic gradient descent asks for the gradient of each training row exactly once, with the row's own target, in a freshly shuffled order. Each step follows the momentum update rule with the configured momentum, step size and iteration count, starting at the given point, and the result is the last point. It ends early when the mean cost no longer changes from one epoch to the next, and only then.",
     ["inputs", "histories", "configurations"], "every model, data set, momentum, step size, epoch count and random stream",
     "One test minimises a parabola; pairing, coverage and order of examples are not observed.",
     [GD], [("epoch loop and Nesterov update", GD + ": StochasticGD::optimize")],
     "trace monitor: recorded gradient queries checked for coverage, pairing and the update rule",
     "Rows and targets carry unique identities, so a mispairing is seen at the query.", ["sequence of compute_grad calls, result"])
prop("O03", "AdaGrad follows its update rule and visits every example once per epoch",
     "In every epoch each training row is used exactly once with its own target. Each step moves every parameter by the step size times the gradient divided by tau plus the root of the accumulated squared gradients of that parameter. It ends early when the mean cost no longer changes from one epoch to the next, and only then.",
     ["inputs", "histories", "configurations"], "every model, data set, parameters and random stream",
     "One test minimises a parabola.",
     [GD], [("accumulator and update", GD + ": AdaGrad::optimize")],
     "trace monitor as for stochastic gradient descent",
     "Rule replayed over recorded queries.", ["sequence of compute_grad calls, result"])
prop("O04", "RMSProp follows its update rule and visits every example once per epoch",
     "In every epoch each training row is used exactly once with its own target. Each step moves every parameter by the learning rate times the gradient divided by the root of the decayed mean of the squared gradients plus epsilon. It ends early when the mean cost no longer changes from one epoch to the next, and only then.",
     ["inputs", "histories", "configurations"], "every model, data set, parameters and random stream",
     "One test minimises a parabola.",
     [GD], [("decayed mean and update", GD + ": RMSProp::optimize")],
     "trace monitor as for stochastic gradient descent",
     "Rule replayed over recorded queries.", ["sequence of compute_grad calls, result"])
prop("O05", "Conjugate gradient never returns a worse point than it was given",
     "For every cost and every start, even where the gradient misleads it, conjugate-gradient minimisation returns a point whose cost is not above the cost at the start, within the configured number of iterations. On a smooth strictly convex quadratic it reaches the minimum given enough iterations, and a start at the minimum is returned unchanged.",
     ["inputs", "configurations"], "every cost function and start, every iteration limit",
     "One test minimises a parabola.",
     [CG], [("line search acceptance", CG + ": ConjugateGD::optimize")],
     "monitor on the returned point against the recorded costs",
     "Quadratics, Rosenbrock and other non-convex costs; every query is recorded.", ["sequence of compute_grad calls, result"])
# ------------------------------------------------------------------ nnet
NN, NL = "src/learning/nnet/mod.rs", "src/learning/nnet/net_layer.rs"
prop("W01", "A neural network computes the composition of its layers",
     "Prediction of a network is, row by row, the composition of its layers in the order they were added: a linear layer multiplies by its weights (with the bias row first when it has one), an activation layer applies its function to every entry. Rows do not influence each other, layers whose widths do not line up are refused with an error, and a network without layers returns its input.",
     ["inputs", "configurations"], "every architecture, weights and input batch",
     "Tests train on XOR and AND and check the predicted truth tables.",
     [NN, NL], [("forward propagation", NN + ": BaseNeuralNet::forward_prop"), ("linear layer", NL + ": Linear::forward")],
     "differential monitor: independent forward pass over the weights read back from the network",
     "Random architectures, with and without bias, mixed activations.", ["predict, get_net_weights"])
prop("W02", "Back-propagation computes the gradient of the training cost",
     "Wherever the outputs are strictly inside the domain of the cost, the gradient a network reports for any weights, inputs and targets is the derivative of its cost summed over the rows with respect to every weight, plus the regularization gradient when the criterion is regularized. It has one entry per weight, in the order of the weights.",
     ["inputs", "configurations"], "every architecture, criterion, regularization, weights and batch",
     "Tests only see that training succeeds on tiny problems.",
     [NN, NL], [("back propagation", NN + ": BaseNeuralNet::compute_grad"), ("layer derivatives", NL + ": back_input, back_params")],
     "differential monitor: numeric differentiation through a recording optimisation algorithm",
     "A harness-supplied optimiser captures cost and gradient at arbitrary weights.", ["compute_grad"])
prop("W03", "Training a network changes its weights to what the optimiser returned",
     "A new network has independently drawn initial weights of the documented spread (zero mean, variance 2/(fan-in + fan-out)), laid out layer by layer in the shapes reported. Training hands exactly those weights, the inputs and the targets to the optimiser and stores exactly its result, so that training by several shorter runs continues where the last ended.",
     ["inputs", "histories", "configurations"], "every architecture, optimiser and training history",
     "Only the shape of one weight matrix is looked at.",
     [NN, NL], [("initial weights", NL + ": Linear::default_params"), ("training", NN + ": NeuralNet::train"), ("weight layout", NN + ": get_layer_weights")],
     "trace monitor with a recording optimiser, and a statistical monitor of initial weights",
     "Weights are tagged with unique values to see any misplacement.", ["get_net_weights, optimiser calls"])
# ------------------------------------------------------------------ analysis
CV, SC, CM = "src/analysis/cross_validation.rs", "src/analysis/score.rs", "src/analysis/confusion_matrix.rs"
prop("V01", "k-fold validation tests every sample exactly once on a model that never saw it",
     "For every number of samples n and folds k from 2 to n, k-fold validation trains the model k times; the k test sets partition the samples, their sizes differ by at most one, and each training set is exactly the complement of its test set. Every row stays paired with its own target in training and testing, and the k scores returned are those of the folds in order. An error of the model ends the validation and is returned, and every partition is equally likely.",
     ["inputs", "configurations", "histories", "fault_sequences"], "every n, k, model and random stream; a training or prediction failure in any fold",
     "Tests look at the folds of an internal iterator for a few sizes.",
     [CV], [("fold boundaries", CV + ": Folds, TrainingIndices, TestIndices"), ("row copying", CV + ": copy_rows / k_fold_validate")],
     "trace monitor: a recording model logs every training and prediction, with faults injected in chosen folds",
     "Rows and targets carry identities; every n <= 40 with every k <= n in the quick tier.", ["train/predict calls of the model, scores"])
prop("V02", "Scores count what they define",
     "Accuracy is the share of equal pairs, row accuracy the share of equal rows, precision, recall and F1 the usual ratios of true positives, false positives and false negatives for 0/1 labels, and the negative mean squared error is minus the mean over rows of the summed squared differences. Exchanging predictions and targets exchanges precision and recall, leaves the others unchanged, and no score depends on the order of the pairs.",
     ["inputs"], "every pair of equally long label sequences or equally shaped matrices",
     "A handful of fixed vectors.",
     [SC], [("accuracy, row_accuracy, precision, recall, f1, neg_mean_squared_error", SC)],
     "differential and metamorphic monitor: recount, exchange and reorder",
     "All binary sequences up to length 7 and random longer ones; labels out of {0,1} and unequal lengths must be refused as documented.", ["scores"])
prop("V03", "The confusion matrix counts every pair",
     "Entry (i, j) of the confusion matrix is the number of samples whose target is the i-th label and whose prediction is the j-th, for the labels given or, without any, all labels occurring in ascending order. Without given labels the entries sum to the number of samples. Repeated labels and unequal lengths are refused.",
     ["inputs", "configurations"], "every predictions, targets and label list",
     "Seven fixed tests.",
     [CM], [("counting", CM + ": confusion_matrix")],
     "differential monitor: recount over every pair",
     "Label lists that omit, permute and add labels; several label types.", ["confusion matrix"])
# ------------------------------------------------------------------ data
TM, TS, TN, TH = ["src/data/transforms/%s.rs" % n for n in ("minmax", "standardize", "normalize", "shuffle")]
prop("T01", "Min-max scaling maps every column linearly onto the requested interval",
     "After fitting, every column of the fitted data is mapped affinely so that its smallest value becomes the requested minimum and its largest the requested maximum, for f32 and f64. Other data is mapped by the same per-column affine function, data with another number of columns is refused, and so is fitting data that admits no such map (a constant column, a range beyond the largest float, no rows) or is not finite.",
     ["inputs", "configurations"], "every fitted matrix, interval (also reversed) and transformed matrix",
     "Tests scale one 2x2 table.",
     [TM], [("scale factors and constants", TM + ": MinMaxFitter::fit"), ("transform", TM + ": transform")],
     "differential monitor with an independent affine map",
     "Scales 1e-100 to 1e100, constant columns, NaN and infinity.", ["fit, transform"])
prop("T02", "Standardising gives every column the requested mean and deviation",
     "After fitting, every column of the fitted data that varies by more than rounding is mapped affinely so that its mean is the requested mean and its sample standard deviation the requested deviation, for f32 and f64. Other data is mapped by the same per-column affine function, and data with another number of columns, or fewer than two rows or non-finite entries when fitting, is refused.",
     ["inputs", "configurations"], "every fitted matrix, requested mean and deviation, and transformed matrix",
     "Tests standardise one 2x2 table.",
     [TS], [("fit", TS + ": StandardizerFitter::fit"), ("transform", TS + ": transform")],
     "differential monitor with an independent affine map",
     "Columns of very different scales; constant columns recorded separately.", ["fit, transform"])
prop("T03", "Normalising gives every row unit norm and keeps its direction",
     "Every row of the result has norm 1 in the chosen norm and is a positive multiple of the input row, as long as its norm can be represented. A row without a direction (all zero) is returned unchanged. Entries that are not finite are refused with an error.",
     ["inputs", "configurations"], "every matrix and norm, f32 and f64",
     "Tests normalise one 2x2 table.",
     [TN], [("row division", TN + ": Normalizer::transform")],
     "invariant monitor: norm and direction of every row",
     "Euclidean and Lp norms, tiny and huge rows.", ["transform"])
prop("T04", "The shuffler permutes whole rows",
     "The result contains exactly the rows of the input, each as often as before, with entries within a row untouched and in place. With generators in the same state the same permutation is applied, every row order is equally likely, and matrices with zero or one row are returned unchanged.",
     ["inputs", "histories"], "every matrix and generator state",
     "Two tests with a fixed seed and a single row.",
     [TH], [("row swaps", TH + ": Shuffler::transform")],
     "invariant monitor (row multiset) and statistical monitor (row orders)",
     "All orders of up to five rows counted; 7 sigma threshold.", ["transform"])
prop("T05", "Undoing a transformation restores the data",
     "For the invertible transformers, transforming data and then applying the inverse returns the original data up to rounding, and so does the inverse followed by the transformation. This holds for the data fitted and for any other data of the same width; another width is refused.",
     ["inputs", "configurations"], "every fitted transformer and matrix of the same width",
     "Round trips on one 2x2 table.",
     [TM, TS], [("inv_transform", TM + ", " + TS)],
     "round-trip monitor", "Tolerance scaled by the magnitudes involved in the affine map.", ["transform, inv_transform"])
prop("U01", "The built-in data sets are complete and internally consistent",
     "The iris data set has 150 rows of 4 positive measurements with one target per row, 50 of each of the classes 0, 1, 2; the trees data set has 31 rows with one target each. Loading twice gives equal data, and the values are those of the published tables.",
     ["inputs", "histories"], "every entry of both tables, every load",
     "Tests look at the first rows only.",
     ["src/datasets/iris.rs", "src/datasets/trees.rs"], [("tables", "src/datasets/iris.rs: load, src/datasets/trees.rs: load")],
     "exhaustive recount of the loaded tables against published column sums and class statistics",
     "Per-class sums and sums of squares and an order-sensitive digest of both tables.", ["load"])
# ------------------------------------------------------------------ cross-cutting
ALL = ["src/learning/" + f for f in ("lin_reg.rs", "logistic_reg.rs", "glm.rs", "gp.rs", "svm.rs", "naive_bayes.rs", "k_means.rs", "dbscan.rs", "gmm.rs", "pca.rs", "knn/mod.rs", "nnet/mod.rs")]
prop("E01", "Misuse is answered with an error of the documented kind",
     "Asking any model, other than a network (which starts with weights), for predictions before it was trained returns an UntrainedModel error instead of a made-up answer. Calls whose shapes or parameters cannot be used (another column count than in training, unequal numbers of inputs and targets, fewer rows than clusters or neighbours, more components than columns) end in an error of the documented kind or at worst a panic, never in an answer. Errors keep their kind and message, also when they wrap a linear algebra error, and a model or transformer remains usable after such a refusal.",
     ["inputs", "histories", "configurations"], "every model and transformer, every order of calls, every wrong shape",
     "A few models have an untrained test; none explores shapes or use after an error.",
     ALL + ["src/learning/error.rs"], [("state and shape checks", "train/predict of each model")],
     "monitor over call histories with deliberately wrong calls",
     "Every model family; after each refusal the model is used again and must answer as before.", ["train, predict results"])
prop("E02", "Retraining leaves no trace of earlier training",
     "Training a model a second time, with the same random stream, gives the same parameters and predictions as training a fresh model on the second data set alone, for every model that trains from scratch. A failed training never makes later predictions mix old and new parameters.",
     ["histories", "inputs", "configurations"], "every model and every pair (or longer history) of training sets, also of different shapes",
     "No test trains a model twice.",
     ALL, [("train", "train of each model")],
     "differential monitor over training histories: retrained against fresh model on the same random stream",
     "Bit-for-bit comparison of predictions; neural networks, which continue from their weights, are excluded.", ["predict after train histories"])
prop("E03", "Predictions are pure and row by row",
     "Predicting does not change a model: repeating it gives the identical answer. The answer for a row does not depend on which other rows are asked for in the same call, or on their order, and one answer is returned per row.",
     ["inputs", "histories"], "every trained model, every batch, split and order of rows",
     "Tests predict one batch once.",
     ALL, [("predict", "predict of each model")],
     "metamorphic monitor: repeat, split, permute and duplicate the query batch",
     "All predictive models; floating-point equality up to 1e-9 relative because blocked products may round differently.", ["predict"])
prop("X01", "Safe calls never cause undefined behaviour",
     "No sequence of calls through the safe public interface reads or writes outside its buffers, uses uninitialised memory, or otherwise causes undefined behaviour, whatever the inputs. Calls with unusable inputs end in an error or a panic at worst.",
     ["inputs", "histories", "configurations"], "every call sequence over every module that uses unchecked access",
     "Tests run uninstrumented, where an out-of-bounds read of a few bytes usually goes unnoticed.",
     [RU, KM, BT, NN, PC, KS, DB], [("unchecked access", "get_unchecked, set_len, from_raw_parts sites in these files")],
     "Miri (undefined-behaviour interpreter) on small workloads and AddressSanitizer on large ones",
     "The crate's own unsafe code is interpreted by Miri with the stand-in linear algebra library, which itself is written in safe code wherever possible.", ["interpreter and sanitizer reports"])
