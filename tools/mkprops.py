"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Rank truncation keeps exactly the leading singular triples asked for",
 "For every matrix and every truncation setting the number of kept singular triples is the one documented: a positive integer r keeps min(r, number of singular values), a fraction e in (0,1) keeps the smallest number whose cumulative share of squared singular values reaches e, 0 keeps those above the Gavish-Donoho optimal hard threshold but never fewer than one, and -1 keeps all. The kept triples are the leading ones, with orthonormal left and right vectors satisfying U^H X = S V^H, and the rank query and the truncated decomposition always agree. Every model that takes this setting returns that many modes (or fewer only where the data matrix is smaller).",
 ["inputs", "configurations"], "all real and complex matrices of any shape (wide, tall, 1 x n, rank deficient), all settings",
 "tests sample a few ranks on two or three fixed data sets; the boundary cases (energy equal to a cumulative share, square/wide/tall, rank 0 threshold) are infinite families",
 ["pydmd/utils.py", "pydmd/dmdoperator.py", "pydmd/edmd.py", "pydmd/subspacedmd.py"],
 [("singular value hard threshold", "pydmd/utils.py:_svht"), ("rank rule", "pydmd/utils.py:_compute_rank"), ("truncated svd", "pydmd/utils.py:compute_svd")],
 ["compute_rank(X, svd_rank)", "compute_svd(X, svd_rank)", "number of modes/eigenvalues after fit"])

prop("C02", "Modes and eigenvalues are eigenpairs of the fitted linear operator",
 "After any successful fit of the standard linear models (plain, exact, forward/backward, Tikhonov-regularised, rescaled, with separate output data, compressed, randomised, subspace), the reduced operator equals its documented least-squares formula on the (possibly denoised or compressed) snapshot pair, every returned eigenvalue with its reduced eigenvector satisfies the eigen-equation of that operator, and every mode is the documented lift (projected or exact) of that eigenvector. Consequently exact modes are eigenvectors, with the returned eigenvalues, of the full best-fit operator mapping each snapshot to its successor, for real and complex data of any shape.",
 ["inputs", "configurations"], "all real/complex snapshot matrices with full-rank kept part, all combinations of exact, forward/backward, rescaling (none, auto, given), sorting, regularisation and denoising",
 "tests compare a handful of fixed data sets with stored tolerances on real data; the option product and complex data are not sampled",
 ["pydmd/dmdoperator.py", "pydmd/dmd.py", "pydmd/cdmd.py", "pydmd/rdmd.py", "pydmd/subspacedmd.py", "pydmd/fbdmd.py"],
 [("least-squares operator", "pydmd/dmdoperator.py:DMDOperator._least_square_operator"), ("eigenquantities", "pydmd/dmdoperator.py:DMDOperator._compute_eigenquantities"), ("modes", "pydmd/dmdoperator.py:DMDOperator._compute_modes")],
 ["operator.as_numpy_array", "operator.eigenvectors", "eigs", "modes", "predict"])

prop("C03", "Sorting only permutes: each mode and amplitude stays with its eigenvalue",
 "Requesting sorted eigenvalues changes nothing but the order: eigenvalues come back non-decreasing in magnitude, or in real part with ties broken by imaginary part, and each eigenvector, mode, amplitude and time evolution moves together with its eigenvalue, so the sorted and unsorted fits describe the same set of triples and the same reconstruction. An unknown sorting key is rejected.",
 ["inputs", "configurations"], "all spectra, including conjugate pairs, ties, purely real spectra; every estimator that accepts the sorting option",
 "tests check the ordering of eigenvalues on one data set but not that the triples stay paired for all spectra",
 ["pydmd/dmdoperator.py", "pydmd/bopdmd.py", "pydmd/varprodmd.py"],
 [("sorting of eigenpairs", "pydmd/dmdoperator.py:DMDOperator._compute_eigenquantities"), ("bagging eigenvalue order", "pydmd/bopdmd.py:BOPDMDOperator._argsort_eigenvalues")],
 ["eigs", "modes", "amplitudes", "dynamics"])

prop("C04", "Amplitudes solve the documented fit and reconstruction follows the formula",
 "With the default setting the amplitudes are the least-squares fit of the modes to the first snapshot, with an integer setting (negative counted from the end) to that snapshot, and with the optimal setting they minimise the total squared error between all snapshots and the modes times the powers of the eigenvalues. The time evolution of mode k at output time t is its amplitude times its eigenvalue raised to (t - first time)/step minus the index of the fitted snapshot, and the reconstruction is exactly modes times time evolution.",
 ["inputs", "configurations"], "all data, all amplitude settings, all time windows and steps",
 "tests compare reconstruction with smooth low-rank data only, where wrong exponents or non-optimal amplitudes are masked by tolerances",
 ["pydmd/dmdbase.py"],
 [("amplitudes", "pydmd/dmdbase.py:DMDBase._compute_amplitudes"), ("optimal system", "pydmd/dmdbase.py:DMDBase._optimal_dmd_matrices"), ("dynamics", "pydmd/dmdbase.py:DMDBase.dynamics"), ("exponent shift", "pydmd/dmdbase.py:DMDBase._translate_eigs_exponent")],
 ["amplitudes", "dynamics", "reconstructed_data"])

prop("C05", "Output time window selects instants without changing the model",
 "After a fit the original window is 0..n-1 with step 1 and the output window equals it; the output instants are first, first+step, ... up to and including the last, and editing the output window changes only which instants are evaluated: the state reconstructed at a given instant is the same whatever the window, and neither the original window, the model, nor any dictionary supplied by the caller is altered. Frequencies are the eigenvalue phases divided by 2 pi times the original step, and only the three documented keys are accepted.",
 ["histories", "inputs"], "all sequences of window edits, all first/last/step values",
 "tests set one or two windows; the guarantee quantifies over every window and edit history",
 ["pydmd/dmdbase.py", "pydmd/hankeldmd.py"],
 [("timesteps", "pydmd/dmdbase.py:DMDBase.dmd_timesteps"), ("time dictionaries", "pydmd/dmdbase.py:DMDBase._set_initial_time_dictionary"), ("restricted dict", "pydmd/dmdbase.py:DMDTimeDict")],
 ["dmd_time", "original_time", "dmd_timesteps", "reconstructed_data", "frequency"])

prop("C06", "Snapshots are flattened losslessly in C order with time last",
 "Whatever the spatial shape, snapshot k of the input is column k of the flattened data in C order, the spatial shape is remembered so that reshaping a column returns the snapshot, and a list of snapshots and the array with time on the last axis give identical results in every model. One-dimensional input, a single snapshot, lists of differently shaped or scalar snapshots and mismatched input/output pairs are rejected.",
 ["inputs"], "all spatial ranks and shapes, list/array/tuple inputs, real/complex/integer data",
 "tests use a couple of shapes; the layout must be right for every rank and shape",
 ["pydmd/snapshots.py", "pydmd/dmdbase.py"],
 [("flattening", "pydmd/snapshots.py:Snapshots._unroll_space_dimensions"), ("pair check", "pydmd/dmdbase.py:DMDBase._compare_data_shapes")],
 ["snapshots", "snapshots_shape", "exceptions"])

prop("C07", "Fitting, predicting and tuning never modify the caller's data",
 "No public operation (constructing, fitting, predicting, reconstructing, forecasting, pre/post-processing, tuning a copy) changes any array, list, dictionary or option container supplied by the caller, and results handed out earlier are not changed by later fits of another instance. Two instances never share mutable state through what the caller passed to both.",
 ["inputs", "histories"], "every estimator, every array argument (snapshots, outputs, controls, times, weights, bases, initial guesses, compression matrices), every memory layout",
 "no test compares the inputs before and after; aliasing only shows for particular options and layouts",
 ["pydmd/dmdbase.py", "pydmd/mrdmd.py", "pydmd/bopdmd.py", "pydmd/dmdc.py", "pydmd/preprocessing/zero_mean.py", "pydmd/paramdmd.py"],
 [("working copy", "pydmd/mrdmd.py:MrDMD.fit"), ("deep copy of time dictionary", "pydmd/dmdbase.py:DMDBase.dmd_time"), ("eigenvalue constraints", "pydmd/bopdmd.py:BOPDMDOperator._push_eigenvalues")],
 ["byte comparison of every argument before and after each call"])

prop("C08", "Refitting an instance equals fitting a fresh one",
 "Fitting an already used instance (fitted before on other data, with modes selected, amplitudes or time windows edited, or predictions made) on new data gives the same modes, eigenvalues, amplitudes, time dictionaries, mode selection and reconstruction as a fresh instance constructed with the same options. The options chosen at construction are never overwritten by data-dependent values.",
 ["histories"], "all sequences of fit/select/edit/predict before the final fit, all estimators and options",
 "tests fit each instance once (or twice on the same data); history dependence needs two different data sets",
 ["pydmd/dmdbase.py", "pydmd/dmdoperator.py", "pydmd/rdmd.py", "pydmd/mrdmd.py", "pydmd/bopdmd.py", "pydmd/varprodmd.py", "pydmd/lando.py"],
 [("reset", "pydmd/dmdbase.py:DMDBase._reset"), ("operator state", "pydmd/dmdoperator.py:DMDOperator.compute_operator")],
 ["all public attributes after the last fit"])

prop("C09", "Mode selection keeps (mode, eigenvalue, amplitude) triples consistent",
 "At every point of any history of selecting, deselecting, indexing, stabilising and editing modes, the exposed modes, eigenvalues and amplitudes are exactly the active triples in their original order: re-activating a mode restores it together with every edit made while it was active, selecting again only ever removes modes among the active ones, and reconstruction uses exactly the active triples. Selection criteria keep precisely the documented modes, stabilising moves an eigenvalue in the requested annulus to the unit circle and multiplies its amplitude by the old magnitude leaving all others alone, and work on a copy or on a sub-selection never changes the source instance.",
 ["histories", "inputs"], "all interleavings of mask changes, criteria, in-place and copied tuning, and edits of the exposed arrays",
 "tests apply one or two operations to one data set; the invariant is over all histories",
 ["pydmd/dmdbase.py", "pydmd/dmd_modes_tuner.py"],
 [("bitmask proxy", "pydmd/dmdbase.py:ActivationBitmaskProxy.change_bitmask"), ("indexing", "pydmd/dmdbase.py:DMDBase.__getitem__"), ("selection", "pydmd/dmd_modes_tuner.py:select_modes"), ("stabilisation", "pydmd/dmd_modes_tuner.py:stabilize_modes")],
 ["modes", "eigs", "amplitudes", "modes_activation_bitmask", "reconstructed_data"],
 [dict(name="activation bitmask", meaning="which modes are exposed", where="pydmd/dmdbase.py:ActivationBitmaskProxy")])

prop("C10", "Delay embedding and its inverse agree for every delay and window",
 "Column t of the delay-embedded matrix is the stack of snapshots t, t+1, ..., t+d-1, and turning an embedded matrix back into snapshots by first occurrence, mean, or weighted mean over all available copies is an exact left inverse of the embedding, with weights applied to the delay position they belong to and missing copies excluded. The delay models return, for any requested output window and origin of time, exactly one column per requested instant, each equal to the value of that instant in the reconstruction over the whole window (for the averaging rules: where the embedded copies agree, since a shorter window has fewer copies). Windows lie on the sampling grid and start at or after the first snapshot.",
 ["inputs", "configurations", "histories"], "all shapes, delays, reconstruction rules and output windows",
 "tests check a few delays with the default window; off-by-one errors appear only for particular delay/window pairs",
 ["pydmd/utils.py", "pydmd/hankeldmd.py", "pydmd/hodmd.py", "pydmd/preprocessing/hankel.py"],
 [("embedding", "pydmd/utils.py:pseudo_hankel_matrix"), ("available copies", "pydmd/preprocessing/hankel.py:_reconstructions"), ("time mapping", "pydmd/hankeldmd.py:HankelDMD._hankel_first_occurrence")],
 ["pseudo_hankel_matrix", "HankelDMD/HODMD reconstructed_data, ho_snapshots"])

prop("C11", "Pre/post-processing wrappers are transparent apart from their transformation",
 "A wrapped model is fitted on exactly the transformed training data with all other fit arguments passed through unchanged, its reconstruction is the inverse transformation (add the mean back, lift from the projection basis, undo the delay embedding) applied to the wrapped model's reconstruction, and every other attribute is the wrapped model's. Centering followed by its inverse is the identity, projection followed by its inverse is the orthogonal projection onto the retained directions for real and complex data, nested wrappers compose in order, and each fit uses only its own data's statistics.",
 ["inputs", "configurations", "histories"], "all data (real and complex), all wrappers and nestings, repeated fits",
 "tests use real data and one nesting; conjugation or stale-state errors are invisible there",
 ["pydmd/preprocessing/pre_post_processing.py", "pydmd/preprocessing/zero_mean.py", "pydmd/preprocessing/svd_projection.py", "pydmd/preprocessing/randomized.py", "pydmd/preprocessing/hankel.py"],
 [("wrapper", "pydmd/preprocessing/pre_post_processing.py:PrePostProcessingDMD"), ("transformations", "pydmd/preprocessing/*.py")],
 ["fit arguments received by the wrapped model", "reconstructed_data", "attributes"])

prop("C12", "Physics-informed operators lie on the requested matrix manifold",
 "For every manifold option the operator produced by the physics-informed fit belongs to that set of matrices: unitary, upper/lower triangular, banded with the requested bandwidths, symmetric or skew-symmetric, Toeplitz, Hankel, circulant and its unitary/symmetric/skew-symmetric versions, symmetric tridiagonal, and the block-circulant families. The returned modes and eigenvalues are eigenpairs of that operator, data generated by an operator of the family is reproduced, and an unknown manifold or malformed option is rejected.",
 ["inputs", "configurations"], "all manifolds and options, all data shapes (short/long, real/complex where meaningful)",
 "tests check each manifold on one random matrix with large tolerances; option values such as asymmetric bands are sampled once",
 ["pydmd/pidmd.py", "pydmd/pidmd_utils.py"],
 [("manifold solvers", "pydmd/pidmd_utils.py"), ("dispatch", "pydmd/pidmd.py:PiDMDOperator._compute_procrustes")],
 ["operator A", "modes", "eigs"])

prop("C13", "DMD with control satisfies its state equation for every input and lag",
 "The states reconstructed by the control model satisfy x[k+lag] = A x[k] + B u[k] for every k, starting from the first lag snapshots, where A is rebuilt from the returned modes and eigenvalues and B is the supplied matrix or the estimated one, for the original or any user-supplied control of the right length; a control of another length is rejected. With B supplied, A is the best fit of the snapshots with the effect of the control removed; with B unknown, (A, B) restricted to the retained basis (the leading directions of the successors) is the least-squares fit of successors by state and control together, so noise-free controlled linear data is reproduced.",
 ["inputs", "configurations"], "all systems, controls, lags, ranks, real and complex",
 "tests use two small systems; general lags and controls are not covered",
 ["pydmd/dmdc.py"],
 [("known B", "pydmd/dmdc.py:DMDBKnownOperator.compute_operator"), ("unknown B", "pydmd/dmdc.py:DMDBUnknownOperator.compute_operator"), ("simulation", "pydmd/dmdc.py:DMDc.reconstructed_data")],
 ["reconstructed_data(control)", "B", "basis", "modes", "eigs"])

prop("C14", "Multi-resolution windows partition time and levels sum to the reconstruction",
 "At every level the windows of the multi-resolution model are consecutive, disjoint and cover all snapshots exactly; the residual passed down is the data minus what the upper levels reconstruct, the reconstruction is the sum over levels of the concatenated window reconstructions, and per-level or per-window queries return exactly the modes, eigenvalues, amplitudes and time evolution of the windows asked for, in order. A time-window query returns precisely the windows meeting the interval, only modes slow enough for their window are kept, and invalid levels or windows are rejected.",
 ["inputs", "configurations"], "all snapshot counts (not only powers of two), depths, cycle limits and query intervals",
 "tests use one signal length and depth; uneven splits and query boundaries are not sampled",
 ["pydmd/mrdmd.py"],
 [("tree indexing", "pydmd/mrdmd.py:BinaryTree"), ("recursion", "pydmd/mrdmd.py:MrDMD.fit"), ("window query", "pydmd/mrdmd.py:MrDMD.time_window_bins")],
 ["partial_* methods", "time_window_* methods", "reconstructed_data"])

prop("C15", "Sparsity-promoting amplitudes: proximal updates, support and limits",
 "Each step of the sparsity-promoting iteration is the documented one (quadratic solve, then complex soft-thresholding by penalty over step size, then dual update), the modes reported as removed have exactly zero amplitude, and the remaining amplitudes are the minimiser of the quadratic cost subject to those zeros. With zero penalty the amplitudes are the unconstrained optimal ones, and the iteration stops exactly when both residuals meet their tolerances or the iteration limit is reached.",
 ["inputs", "configurations"], "all data, penalties, step sizes and tolerances",
 "tests count zero amplitudes on one data set for a few penalties; the optimality equations are never checked",
 ["pydmd/spdmd.py"],
 [("soft threshold", "pydmd/spdmd.py:soft_thresholding_operator"), ("ADMM updates", "pydmd/spdmd.py:SpDMD"), ("constrained solve", "pydmd/spdmd.py:SpDMD._optimal_amplitudes")],
 ["amplitudes", "soft_thresholding_operator"])

prop("C16", "Denoising and sketching project the data as documented",
 "Total-least-squares denoising multiplies both data matrices on the right by the same orthogonal projector of the requested rank onto the leading row space of the stacked pair (and is the identity when disabled); the randomised QB factor has orthonormal columns spanning the range of (X X^H)^p X T for the test matrix T and p power iterations, with B = Q^H X, and reproduces X whenever the target rank plus oversampling reaches the rank of X. Compressed and randomised models fit the pair obtained by multiplying all snapshots by one and the same compression matrix, and results with a given seed or test matrix are reproducible and independent of global random state.",
 ["inputs", "configurations"], "all matrices, ranks, oversampling, power iterations, seeds and test matrices",
 "tests check shapes and a single seed; projector identities for every input are out of reach of samples",
 ["pydmd/utils.py", "pydmd/cdmd.py", "pydmd/rdmd.py"],
 [("denoising", "pydmd/utils.py:compute_tlsq"), ("QB", "pydmd/utils.py:compute_rqb"), ("compression", "pydmd/cdmd.py:CDMD._compress_snapshots")],
 ["compute_tlsq", "compute_rqb", "compression_matrix"])

prop("C17", "Parametric predictions keep parameter, space and time axes aligned",
 "In the parametric model the training data of parameter i, space point s and instant t always reaches the reduced model as its own entry: projecting, stacking, fitting (one model for all parameters or one per parameter), forecasting, splitting, interpolating and lifting never mix up parameters, reduced coordinates or instants. At a training parameter, with an interpolator that reproduces its nodes and no rank truncation, the output equals the model's own reconstruction of that parameter's data, and output has shape (parameters, space..., time) in the order the parameters were given.",
 ["inputs", "configurations"], "all numbers of parameters, spatial shapes, instants, ranks, both monolithic and partitioned models",
 "the repository's tests for this model cannot even be collected here, and use one data set",
 ["pydmd/paramdmd.py"],
 [("arrangement", "pydmd/paramdmd.py:ParametricDMD._arrange_parametric_snapshots"), ("prediction", "pydmd/paramdmd.py:ParametricDMD"), ("interpolation", "pydmd/paramdmd.py:ParametricDMD.reconstructed_data")],
 ["reconstructed_data", "forecasted_modal_coefficients", "interpolated_modal_coefficients", "training_modal_coefficients"])

prop("C18", "Kernel models satisfy their fitted equations",
 "The learned dynamical model evaluates to weights times kernel(dictionary, x); its weights solve the least-squares problem of the outputs on that kernel matrix, the dictionary is a subset of the (rescaled) training snapshots such that every other snapshot is within the tolerance of its span in feature space, and at any base point c the model equals bias + linear part + nonlinearity with the linear part being the exact kernel derivative. The extended (kernel) model's eigenvalues and modes satisfy the Koopman eigen-equation of the kernel least-squares operator, and rescaling of inputs is undone in everything returned. Data are real; the kernel rank does not exceed the numerical rank of the Gramian and modes are those of eigenvalues that are not zero to rounding.",
 ["inputs", "configurations"], "all kernels and their parameters, data, tolerances, rescalings, online and offline learning",
 "tests integrate one or two systems; gradient and weight equations are never checked for other kernels or points",
 ["pydmd/lando.py", "pydmd/edmd.py"],
 [("kernel and gradient", "pydmd/lando.py:LANDO.kernel_function, kernel_gradient"), ("dictionary", "pydmd/lando.py:LANDOOperator"), ("kernel operator", "pydmd/edmd.py:EDMDOperator.compute_operator")],
 ["f", "bias", "linear", "nonlinear", "sparse_dictionary", "modes", "eigs"])

prop("C19", "Optimised DMD fits sums of exponentials and obeys its constraints",
 "The optimised models return (in a single trial without a proximal operator on the modes) unit-norm modes, non-negative amplitudes and continuous-time eigenvalues whose product modes*diag(amplitudes)*exp(eigenvalues*t) is the reconstruction at the fitted times and the forecast at any other times; the fit never ends with a larger residual than its starting guess gives, and noise-free sums of exponentials sampled densely enough at arbitrary (also uneven) times are recovered. Requested eigenvalue constraints (left half plane, imaginary axis, conjugate pairs, their combinations, or a custom function) hold for the returned eigenvalues of every trial (and for their mean where the constraint is convex: left half plane, imaginary axis), contradictory constraints are rejected, and bagging statistics are the mean and standard deviation of the individual trials.",
 ["inputs", "configurations"], "all sample times, data, constraints, initial guesses, projections",
 "tests use one system with uniform times and loose tolerances",
 ["pydmd/bopdmd.py", "pydmd/varprodmd.py"],
 [("variable projection", "pydmd/bopdmd.py:BOPDMDOperator._variable_projection"), ("constraints", "pydmd/bopdmd.py:BOPDMDOperator._push_eigenvalues"), ("normalisation", "pydmd/bopdmd.py:BOPDMDOperator._single_trial_compute_operator"), ("residual and jacobian", "pydmd/varprodmd.py")],
 ["eigs", "modes", "amplitudes", "reconstructed_data", "forecast"])

prop("C20", "HAVOK embedding, regression and simulation are mutually consistent",
 "The time-delay matrix of the forced model stacks the delayed copies with the requested number and spacing of delays and is inverted exactly when returning to the original signal; the delay coordinates, their derivative, and the linear and forcing blocks satisfy the documented regression, and simulating with given forcing, times and initial state solves that linear system in the learned coordinates. The operator, eigenvalues and forcing index sets returned agree with those blocks for every number of forcing terms, delays and variables. Signals are real, and the lag is at most the length of the embedded series (a larger lag skips samples, which no inverse can restore).",
 ["inputs", "configurations"], "all signals, delays, lags, numbers of variables and forcing terms",
 "tests use the Lorenz system with default delays",
 ["pydmd/havok.py", "pydmd/utils.py"],
 [("embedding", "pydmd/havok.py:HAVOK.hankel/dehankel"), ("derivative", "pydmd/utils.py:differentiate"), ("regression", "pydmd/havok.py:HAVOK.fit")],
 ["ho_snapshots", "delay_embeddings", "linear_embeddings", "forcing_input", "A", "B", "predict", "reconstructed_data"])

prop("C21", "Sliding-window separation: windows tile the data and bands add up",
 "In the sliding-window scale-separation models every sample is covered by the windows laid out from the chosen length and step (step at most the length), each window is fitted on exactly its own samples and times, and overlapping window reconstructions are combined by a normalised weighting, so that the sum of all scale components equals the global reconstruction and low- plus high-frequency parts equal the whole. Assigning frequencies to bands partitions the modes of each window, and subsampling or padding never shifts samples in time. (For the multi-resolution model: equal ranks on all levels and the regular windows of the layout.)",
 ["inputs", "configurations"], "all series lengths, window lengths, steps, band counts",
 "tests run one synthetic signal with fixed window parameters",
 ["pydmd/costs.py", "pydmd/mrcosts.py"],
 [("window layout", "pydmd/costs.py:COSTS.build_windows"), ("global reconstruction", "pydmd/costs.py:COSTS.global_reconstruction"), ("scale separation", "pydmd/costs.py:COSTS.scale_separation, scale_reconstruction")],
 ["window indices", "global_reconstruction", "scale_reconstruction", "scale_separation"])

prop("C22", "Linear dynamics is recovered exactly by every linear model",
 "When the snapshots are generated exactly by a diagonalisable linear system and the chosen rank is enough to hold them, every linear model (plain, exact, forward/backward, compressed, randomised, higher-order/delay, subspace, optimal closed-form, extended with the linear kernel, sparsity-promoting with vanishing penalty) returns the generating eigenvalues, reconstructs the snapshots, and predicts or forecasts the following ones (the multi-resolution model reconstructs them), independent of units, ordering of space points and a common complex phase. Saving a fitted model and loading it back preserves all of this.",
 ["inputs", "configurations"], "all diagonalisable systems excited in all modes, all sizes with enough snapshots, real and complex",
 "tests recover one or two fixed systems",
 ["pydmd/dmd.py", "pydmd/optdmd.py", "pydmd/dmdoperator.py", "pydmd/dmdbase.py"],
 [("fit and predict", "pydmd/dmd.py:DMD.fit, DMD.predict"), ("closed form operator", "pydmd/optdmd.py:DMDOptOperator.compute_operator"), ("save/load", "pydmd/dmdbase.py:DMDBase.save, load")],
 ["eigs", "reconstructed_data", "predict", "save/load"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
