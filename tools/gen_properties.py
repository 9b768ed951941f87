"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

U = "robpy/univariate/"
prop("C01", "Qn scale is the exact pairwise-distance order statistic",
 "For every finite univariate sample of at least two observations - any order, ties, magnitude or parity of n - the Qn estimator terminates and its scale equals the C(h,2)-th smallest of all n(n-1)/2 absolute pairwise differences, h = floor(n/2)+1. It is multiplied by exactly the finite-sample factor and the normal-consistency factor (2.219144) that are switched on. Its location is the value of the chosen location function on that same sample.",
 ["inputs", "configurations"],
 "all samples (n >= 2, tied and untied, sorted or not, fractional values whose differences round) x both correction switches x location function",
 "Two fixed samples are compared to one decimal; ties, rounding of differences, small n and the iterative bracketing of the O(n log n) search are unreachable by example.",
 [U+"qn.py", "robpy/utils/median.py"],
 [("bracketing search over the implicit pairwise-difference matrix", U+"qn.py:Qn._calculate"), ("small-sample factors", U+"qn.py:_get_small_sample_dn"), ("weighted median pivot", "robpy/utils/median.py:weighted_median")],
 ["Qn(...).fit(x).scale", "Qn(...).fit(x).location"])
prop("C02", "Univariate MCD finds the minimum-variance half and reweights it correctly",
 "For every univariate sample and every admissible alpha, the raw univariate MCD location and variance are the mean and population variance of an h-point subset whose variance is minimal among all h-point subsets, h following the documented rule, and the final estimates are the mean and variance of the points within the 97.5% chi-square cutoff of the raw ones, each with its consistency factor exactly when requested. If a subset of h points has zero spread the estimate is finite: that common value with scale 0. Using all points gives the classical mean and standard deviation, and an alpha outside the documented range is refused with ValueError.",
 ["inputs", "configurations"],
 "all samples up to a length over a value grid (with ties and permutations) x every alpha form (None, int, float, 1) x consistency switch",
 "The only test checks that attributes are floats on one random sample; global optimality is a statement over all C(n,h) subsets.",
 [U+"mcd.py"],
 [("contiguous-window scan after sorting", U+"mcd.py:UnivariateMCD._get_raw_estimates"), ("one-step reweighting", U+"mcd.py:UnivariateMCD._reweighting"), ("h rule", U+"mcd.py:UnivariateMCD._set_h_size")],
 ["location, scale, raw_location_, raw_scale_, variance_, raw_variance_, h_size"])
prop("C03", "Tau and one-step M estimators equal their published closed forms",
 "For every univariate sample, the tau estimator, the Huber one-step M estimator, the cellwise one-step M estimator and the MCD-started wrapping estimator return exactly the location and scale given by their published formulas (weight function, rho function, tuning constants, consistency factors and the median/MAD or MCD start). Samples whose start scale is zero give a finite location and scale 0 instead of NaN.",
 ["inputs", "configurations"],
 "all samples over value grids with values placed on both sides of every cutoff (1.5, 2.5, 3, 4, 4.5 scale units), all tuning-constant settings and correction switches",
 "Tau is compared with two fixed samples to one decimal; the one-step estimators are only exercised indirectly, never near their cutoffs.",
 [U+"tau.py", U+"onestep_m.py", "robpy/utils/rho.py"],
 [("tau weights/rho", U+"tau.py:Tau._calculate"), ("one step from median/MAD", U+"onestep_m.py:OneStepM._calculate"), ("hyperbolic tangent weights", U+"onestep_m.py:OneStepWrapping._tanh_weights")],
 ["location and scale after fit"])
prop("C04", "Univariate estimators are affine equivariant and order independent",
 "For every univariate robust estimator in the library and every sample of distinct values, replacing x by a*x+b (a nonzero) changes the location to a*location+b and the scale to |a|*scale, for any sign and magnitude of a and b. Reordering the observations changes neither.",
 ["inputs", "configurations"],
 "all samples of a bounded grid x all (a,b) of a transformation set (negative, tiny, huge factors) x all permutations/rotations x all estimators with all switches",
 "No test relates two runs of an estimator; equivariance is a relation between executions over all inputs.",
 [U+"qn.py", U+"mcd.py", U+"tau.py", U+"onestep_m.py"],
 [("standardisation by median/MAD or MCD before any cutoff", U+"onestep_m.py"), ("sorting", U+"qn.py, mcd.py")],
 ["location and scale of two related fits"])
prop("C05", "Univariate estimates survive any minority of arbitrary outliers",
 "If fewer than half of the observations of a sample with distinct values are replaced by arbitrary values - any positions, any signs, any magnitudes, clustered or spread - every univariate robust location estimate stays inside a bounded neighbourhood of the uncontaminated data and the scale estimate stays bounded and finite. Making far outliers farther does not move the estimates that reject them completely.",
 ["fault_sequences", "inputs"],
 "every subset of fewer than n/2 positions x every assignment of corruption values from {+-1e3, +-1e6, +-1e12, point mass, duplicates of a good point}",
 "Tests use clean or fixed samples; breakdown is a worst case over all contamination patterns.",
 [U+"qn.py", U+"mcd.py", U+"tau.py", U+"onestep_m.py"],
 [("high-breakdown starts (median, MAD, MCD, Qn)", U)],
 ["location and scale before/after contamination"])
prop("C06", "Missing values are refused or removed, never silently propagated",
 "A univariate estimator or robust scaler fitted on data containing NaN either refuses with ValueError, or, when told to ignore missing values, gives exactly the estimates it gives on the same data with those entries removed, column by column. Input that is not one-dimensional is refused by the univariate estimators with ValueError.",
 ["inputs", "configurations"],
 "every missingness pattern of small samples and matrices x every estimator x ignore flag on/off",
 "No test passes a NaN to a univariate estimator or to the scaler.",
 [U+"base.py", "robpy/preprocessing/scaling.py"],
 [("NaN gate", U+"base.py:RobustScale.fit"), ("flag forwarding per column", "robpy/preprocessing/scaling.py:RobustScaler.fit")],
 ["fit(..., ignore_nan=...)"])
prop("C07", "Adjusted boxplot statistics and fliers follow the medcouple rule",
 "For every sample of at least two observations, the adjusted boxplot reports median, quartiles and whiskers equal to the medcouple-adjusted fences clipped to the data range, so lower whisker <= upper whisker and both lie within the data. Mirroring the data mirrors the boxplot, each column of a matrix is treated exactly as if it were alone, arrays, Series and DataFrames agree, and the drawn fliers are exactly the observations outside the whiskers.",
 ["inputs", "configurations"],
 "all samples over a bounded grid (both skew signs, zero medcouple, ties) x array/Series/DataFrame x plot on/off",
 "Two seeded right-skewed samples are pinned; left skew, zero medcouple and flier sets are never looked at.",
 [U+"adjusted_boxplot.py"],
 [("fence exponents by medcouple sign", U+"adjusted_boxplot.py:adjusted_boxplot")],
 ["returned Boxplot objects; drawn flier/whisker/box artists"])
prop("C08", "Loss functions and the wrapping transformation keep their defining shape",
 "Every loss function is even, zero at zero, nondecreasing in |x|, with psi equal to its derivative, odd, and equal to the published Huber or Tukey form for every tuning constant, at scalars on both sides of and on the cutoff. The wrapping transformation leaves values within b robust scale units unchanged, pulls values beyond c exactly to the location, follows the published tanh curve in between, is odd and bounded, and with rescaling returns columns whose mean and standard deviation equal the robust location and scale.",
 ["inputs", "configurations"],
 "all points of a grid containing every cutoff and its floating-point neighbours x tuning constants x rescale on/off x custom location/scale functions x zero-scale columns",
 "Two fixed matrices with one parameter set each; loss functions have no tests.",
 ["robpy/utils/rho.py", "robpy/preprocessing/utils.py"],
 [("piecewise definitions", "robpy/utils/rho.py"), ("np.where ladder and rescaling", "robpy/preprocessing/utils.py:wrapping_transformation")],
 ["rho(x), psi(x), wrapping_transformation(X, ...)"])
prop("C09", "Robust scaler standardises per column and inverts exactly",
 "After fitting the robust scaler, transforming subtracts the per-column location (when centering) and divides by the per-column scale (when scaling) obtained from the configured estimator on that column alone, and inverse-transforming undoes it, for training and new data alike. Vectors, matrices and DataFrames give the same numbers, and the caller's estimator object or other scalers never influence a scaler that is already fitted.",
 ["inputs", "configurations", "histories"],
 "all matrices of a bounded family x every estimator x centering/scaling switches x container type x interleavings of fits of scalers that share an estimator",
 "Four tests on one random matrix and the default estimator; no interleaving and no new data.",
 ["robpy/preprocessing/scaling.py"],
 [("per-column fit", "robpy/preprocessing/scaling.py:RobustScaler.fit"), ("transform/inverse", "robpy/preprocessing/scaling.py:RobustScaler.transform")],
 ["transform, inverse_transform, locations_, scales_"])
T = "robpy/preprocessing/transfo.py"
prop("C10", "Power transform is strictly increasing and exactly invertible",
 "After fitting, the power transformer maps every admissible value (integers or floats, training or new, both signs for Yeo-Johnson, positive for Box-Cox) by the published transformation of the fitted lambda, strictly increasing, with the configured pre/post standardisation. Inverse-transforming a transformed value returns it, transformed values outside the attainable range are mapped back to a finite boundary value, and Box-Cox refuses data that is not strictly positive.",
 ["inputs", "configurations"],
 "all data sets of a family (skewed both ways, integer, near-constant tails) x method x standardize x lambda range x evaluation points inside and outside the training range",
 "One lognormal round trip and one pinned lambda per method; negative data, integer data, bounds and non-default lambda ranges are untested.",
 [T],
 [("transformations and inverses", T+":_transf_*, _inv_transf_*"), ("range handling", T+":_handle_bounds")],
 ["fit, transform, inverse_transform"])
prop("C11", "Power transform fit is unit independent, central and self-consistent",
 "With standardisation on, fitting the power transformer to data in other units (any positive factor, and any shift for Yeo-Johnson) yields the same method, the same lambda and the same transformed values, and the observations that are not rejected have mean 0 and standard deviation 1 after transformation. Fitting never fails or returns estimates that contradict the transform when the optimum lies near the edge of the search interval, and automatic method choice never errs on data containing nonpositive values and picks the method with the smaller normality criterion.",
 ["inputs", "configurations"],
 "all data sets of a family x unit changes x method (boxcox, yeojohnson, auto) x lambda ranges that contain, touch or exclude the optimum",
 "Tests never change units, never use automatic choice and never leave the default search interval.",
 [T],
 [("pre-standardisation", T+":_fit_boxcox/_fit_yeojohnson"), ("search-interval expansion", T+":_fit_*"), ("criterion", T+":_robnormality")],
 ["lambda_rew, method, transform"])
D = "robpy/preprocessing/data_cleaner.py"
prop("C12", "Data cleaner drops exactly the rows and columns its rules name",
 "Fitting and transforming a data frame removes exactly the columns that are non-numeric, discrete, of negligible scale, equal to the row numbers or with too large a missing fraction, and exactly the rows with too large a missing fraction, in the configured order, infinite values counting as missing; the remaining cells are unchanged apart from infinities becoming missing, and row and column order is kept. The reported dropped rows and columns are the ones removed. Data with fewer than the required number of rows is refused.",
 ["inputs", "configurations", "histories"],
 "all frames assembled from a catalogue of column kinds and missingness patterns x thresholds x cleaning order, on the fitted frame and on later frames",
 "One 9x9 frame with default settings is pinned.",
 [D],
 [("column classification at fit", D+":fit"), ("row/column missing filters at transform", D+":_set_missing_cols_and_rows")],
 ["transform output, dropped_columns, dropped_rows"])
M = "robpy/covariance/mcd.py"
prop("C13", "MCD reports a converged h-subset and the estimates that belong to it",
 "For every data set in general position, FastMCD and DetMCD report a subset of exactly h distinct observations (h by the documented rule for the whole data set, whatever the partitioning), and one more concentration step from it does not lower its covariance determinant by more than the tolerance. FastMCD's determinant is never larger than what concentrating any of the starting subsets it retains would reach. The reported location and covariance are the mean and covariance of that subset or, when enabled, of the points within its 97.5% cutoff, with the documented consistency factors; alpha equal to everything gives the classical estimates and an inadmissible alpha is refused.",
 ["inputs", "configurations", "schedules"],
 "all random answers (every starting subset, every pair of starting subsets) on a family of data sets x alpha forms x c-step counts x partitions x correction/reweighting switches; every h-subset as a state of the concentration graph",
 "Tests only check that attributes exist and the subset size for four settings; the C-step loop's convergence and the choice among random starts are never observed.",
 [M],
 [("C-step loop and selection of the best subset", M+":FastMCD.calculate_covariance, DetMCD.calculate_covariance"), ("h rule", M+":_get_h"), ("correction and reweighting", M+":_correct_covariance")],
 ["best_subset.indices/determinant, location_, covariance_"],
 [("h-subset", "set of h observations; transition = concentration step", M+":HSubset")])
prop("C14", "MCD estimators are affine equivariant and ignore observation order",
 "For a fixed seed, applying a nonsingular affine map x -> Ax+b to the rows maps FastMCD's location to A*loc+b and its covariance to A*cov*A', and the selected subset is unchanged. DetMCD is equivariant under shifts and per-coordinate rescaling (including sign flips), and reordering its rows changes nothing; reordering the columns permutes both estimators' results.",
 ["inputs", "configurations"],
 "a family of data sets with and without outliers x a family of affine maps (shear, tiny and huge scales, reflections, large shifts) x alpha/reweighting settings x permutations",
 "No covariance test relates two fits.",
 [M],
 [("all decisions depend on affine invariant distances and determinant ratios", M)],
 ["location_, covariance_, best_subset of related fits"])
B = "robpy/covariance/base.py"
prop("C15", "A fitted covariance estimator is a coherent location/scatter/distance bundle",
 "After fitting any covariance estimator on complete data, the covariance is a finite symmetric p x p matrix with positive diagonal (positive semidefinite for all but the pairwise Kendall estimator), the stored precision is its (pseudo-)inverse, a reported correlation matrix has unit diagonal, and the location has length p. The robust distances kept for diagnostics are the Mahalanobis distances of the training rows under exactly the reported location and covariance and the classical ones those under mean and sample covariance; DataFrame and array input agree.",
 ["inputs", "configurations"],
 "all data sets of a bounded family (p=2..4, ties, strong correlation, different units) x all estimators x constructor switches x container types",
 "Tests mostly check that attributes exist; coherence between the attributes is never checked.",
 [B, M, "robpy/covariance/ogk.py", "robpy/covariance/kendall.py", "robpy/covariance/wrapping.py", "robpy/covariance/cellmcd.py", "robpy/utils/distance.py"],
 [("common fit", B+":RobustCovariance.fit"), ("distances", "robpy/utils/distance.py:mahalanobis_distance")],
 ["covariance_, precision_, correlation, location_, stored distances"])
prop("C16", "OGK, Kendall and wrapping covariances equal their definitions",
 "For every complete data set, the OGK estimator returns the location and scatter of the published orthogonalised pairwise construction for the configured univariate location/scale, number of iterations and reweighting; the Kendall estimator returns tau_ij * s_i * s_j with Qn scales; and the wrapping estimator returns the classical covariance and correlation of the wrapped data. All three follow per-coordinate changes of unit and reorderings of rows and columns.",
 ["inputs", "configurations"],
 "all data sets of a bounded family x location/scale functions x iterations 0..3 x reweighting on/off x quantiles x wrapping constants x unit changes and permutations",
 "OGK is checked for symmetry/PSD on random data, the others for attribute existence only.",
 ["robpy/covariance/ogk.py", "robpy/covariance/kendall.py", "robpy/covariance/wrapping.py"],
 [("orthogonalisation loop and back-transformation", "robpy/covariance/ogk.py:OGK.calculate_covariance"), ("pairwise loop", "robpy/covariance/kendall.py"), ("wrapped classical covariance", "robpy/covariance/wrapping.py")],
 ["covariance_, location_, correlation_"])
prop("C17", "Robust covariance estimates survive any tolerated set of outlying rows",
 "If any set of rows, up to the number the estimator's h-subset (or 50%-breakdown start) can leave out, is replaced by arbitrary far values - any rows, any directions, clustered, spread or concentrated - the FastMCD, DetMCD and OGK locations and the scatter of all robust covariance estimators stay bounded by a constant that depends on the good data only, and the scatter does not collapse. For the reweighted MCD the outlying rows receive zero weight, so moving them farther away changes nothing, and their robust distances exceed those of all good rows.",
 ["fault_sequences", "configurations"],
 "every subset of rows up to the breakdown count of small data sets x corruption patterns (point mass, cluster, line, spread, opposite signs) x magnitudes x estimators and alpha settings",
 "No covariance test contains an outlier.",
 [M, "robpy/covariance/ogk.py", "robpy/covariance/kendall.py", "robpy/covariance/wrapping.py"],
 [("h-subset trimming", M), ("robust univariate building blocks", "robpy/covariance/ogk.py")],
 ["location_, covariance_, robust distances under contamination"])
DD = "robpy/outliers/ddc.py"
prop("C18", "DDC prediction, flagging and imputation agree with each other",
 "Predicting on the training frame reproduces the flags and residuals stored by fitting; a cell is flagged exactly when its standardised residual exceeds the chi-square cutoff, rows are judged from their cells, and the result for a row never depends on the other rows passed along. Imputing changes only missing (or infinite) cells and, if asked, flagged ones, replaces them by their (rounded) prediction and never leaves a missing value, keeping index and columns; infinite cells are treated as missing and fully missing rows are imputed too.",
 ["inputs", "configurations", "histories"],
 "all corruption patterns (missing, infinite, outlying cells up to a count, whole missing rows) of small frames x constructor settings x subsets of rows passed to predict/impute",
 "One 9x4 frame and one 2x4 frame are pinned with default settings.",
 [DD],
 [("shared pipeline of fit/predict/impute", DD+":DDC.fit, predict, impute"), ("cutoff", DD+":_cellwise_outliers")],
 ["cellwise_outliers_, standardized_residuals_, row_outliers_, predict, impute"])
prop("C19", "DDC model equals the published algorithm and is unit independent",
 "The fitted DDC locations, scales, robust correlations, slopes, predictions, deshrinkage factors and flags are those of the published algorithm: only variables whose absolute robust correlation reaches the configured minimum take part, each weighted by that correlation. Changing the unit of a column (any shift, any nonzero factor), or reordering rows or columns, leaves flags and standardised residuals unchanged up to the sign of a flipped column and the reordering.",
 ["inputs", "configurations"],
 "all frames of a bounded family (correlated blocks, isolated columns, missing and outlying cells) x quantile x minimum correlation x scale estimator x unit changes and permutations",
 "Pinned outputs for one frame cannot distinguish a wrong formula that agrees there; the minimum correlation is never varied.",
 [DD],
 [("robust correlation", DD+":_robust_correlation"), ("slopes, weights and deshrinkage", DD+":_get_slopes, _get_predicted_values")],
 ["robust_correlation_, slopes_, predictions_, flags"])
CM = "robpy/covariance/cellmcd.py"
prop("C20", "CellMCD flags within its quota and never keeps a missing cell",
 "After fitting CellMCD, the cell indicator matrix is 0/1 with the shape of the data, every missing cell is flagged, and every column keeps at least the alpha share of its cells (and more than half) unflagged. Gross cellwise outliers are flagged, imputed data differs from the input only in flagged cells and is complete, and the standardised-data covariance has no eigenvalue below the configured minimum. Data violating the documented preconditions (near-zero spread, too many bad cells in a column, too few rows, inadmissible alpha or eigenvalue bound) is refused with ValueError.",
 ["inputs", "configurations", "fault_sequences"],
 "all patterns of missing/outlying cells up to a count placed on small data sets x alpha x quantile x step limits x eigenvalue bounds, including patterns exactly at and just beyond each refusal limit",
 "Tests use clean Gaussian data without any missing or outlying cell.",
 [CM, "robpy/covariance/initial_ddcw.py", "robpy/covariance/utils/alter_covariance.py"],
 [("column-wise update with quota", CM+":_update_W"), ("preconditions", CM+":_check_data"), ("eigenvalue truncation", "robpy/covariance/utils/alter_covariance.py")],
 ["W, X_imputed, covariance_"])
prop("C21", "CellMCD estimates follow its EM-type iteration and conditional formulas",
 "Each CellMCD iteration maps the current location, scatter and flags to those of the published C-step and never raises the penalised likelihood objective; the reported triple is one consistent iterate, the last accepted one. Predictions and conditional standard deviations are the Gaussian conditional means and standard deviations of each cell given the other unflagged cells of its row under the reported location and covariance (marginal ones when none is left).",
 ["inputs", "configurations", "histories"],
 "all iteration depths 0<k<=K (each iterate as a state, each C-step as a transition) x data sets with every small pattern of missing/outlying cells including fully flagged rows",
 "Tests never look at predictions, and the iterates are never compared with the definition.",
 [CM, "robpy/covariance/utils/cellmcd_utils.py", "robpy/utils/general.py"],
 [("C-step", CM+":_C_step"), ("accept/stop rule", CM+":_C_steps_until_convergence"), ("conditional prediction", CM+":_make_predictions"), ("objective", "robpy/covariance/utils/cellmcd_utils.py:objective_function")],
 ["location_, covariance_, W, predictions, conditional_stds, residuals for max_c_steps=k"],
 [("(mu, Sigma, W)", "current iterate", CM+":_C_steps_until_convergence")])
prop("C22", "CellMCD is independent of units, row order and integer storage",
 "Shifting or rescaling columns (any nonzero factor), reordering rows, or storing the same numbers as integers or in a DataFrame leaves CellMCD's flags unchanged (as long as no rescaled column falls below the documented absolute scale limit) and maps location, covariance, predictions and imputed values accordingly. Reordering columns permutes the refusal decision and, up to the column-wise update order, the result on data without ties in flag counts.",
 ["inputs", "configurations"],
 "a family of data sets with missing/outlying cells x unit changes x permutations x storage types",
 "No test relates two CellMCD fits.",
 [CM, "robpy/covariance/initial_ddcw.py"],
 [("robust pre-standardisation and back-transformation", CM+":calculate_covariance")],
 ["W, location_, covariance_, predictions, X_imputed of related fits"])
L = "robpy/regression/lts.py"
prop("C23", "LTS regression returns a converged trimmed fit with matching loss and scale",
 "For every regression data set, the LTS fit without reweighting is the least-squares fit of its reported h-subset (h by the documented rule), that subset contains the h smallest absolute residuals of the fit, one more concentration step does not improve the loss, and the loss is not larger than what concentrating any start it used would reach. The scale is the root mean squared residual of the retained points times the small-sample factor; reweighting refits by least squares on exactly the points whose residual is small relative to the robust raw scale. Alpha outside [0.5, 1] is refused and alpha = 1 without reweighting gives ordinary least squares.",
 ["inputs", "configurations", "schedules"],
 "all elementary starting subsets as given initial weights, and ranges of seeds, on a family of data sets with outliers x alpha x c-steps x number of best models x reweighting",
 "Unit tests look at single C-steps and shapes; convergence, optimal choice among starts and reweighting are not observed.",
 [L],
 [("C-steps and selection", L+":fit, _apply_C_steps_untill_convergence"), ("reweighting", L+":fit"), ("correction factors", L+":get_correction_factor*")],
 ["model coefficients, best_h_subset, scale, predict"])
S = "robpy/regression/s.py"
MMF = "robpy/regression/mm.py"
prop("C24", "S and MM regression solve their estimating equations",
 "The S-regression fit is a weighted least squares solution whose weights are psi(r/s)/(r/s) of its own residuals r and scale s, and with enough scale iterations s solves mean(rho(r/s)) = b. The MM fit keeps the scale of its initial estimator, every iteration is the weighted least squares step (intercept included) with weights psi(r/s)/(r/s), the weighted loss never increases, and at convergence the sum of psi(r/s) against every regressor and the constant vanishes. Observations fitted exactly are given full weight rather than breaking the fit.",
 ["inputs", "configurations", "histories"],
 "all iteration depths (each iterate as a state) on a family of data sets incl. exact fits, large intercepts, outliers and one-feature data x rho functions and tuning constants x seeds",
 "One noise-free-ish data set through the origin; tests only check that the prediction is an array and the scale positive.",
 [S, MMF, "robpy/utils/rho.py"],
 [("i-steps and scale iteration", S+":_i_step, _get_scale"), ("IRLS", MMF+":fit")],
 ["coefficients, scale, n_iter, predict"])
prop("C25", "Regression estimators are regression, scale and affine equivariant",
 "For LTS, S and MM regression, adding a linear function Xg+c of the features to the response adds exactly g and c to the coefficients, multiplying the response by a nonzero factor multiplies coefficients and (in absolute value) scale, and a nonsingular linear change or reordering of the features leaves fitted values and scale unchanged. One-dimensional, array, DataFrame and Series inputs give the same fit.",
 ["inputs", "configurations"],
 "a family of data sets with and without outliers x transformation set (large intercepts, sign flips, tiny/huge factors, shears) x estimators and settings x container types",
 "No regression test relates two fits or uses a nonzero intercept check.",
 [L, S, MMF, "robpy/regression/base.py"],
 [("all weights depend on scaled residuals only", "robpy/regression/"), ("input conversion", "robpy/regression/base.py:_convert_input_to_array")],
 ["predict, scale, coefficients of related fits"])
prop("C26", "Robust regression fits survive any tolerated set of bad observations",
 "If any set of observations up to the method's trimming or 50%-breakdown allowance is replaced by arbitrary vertical outliers or bad leverage points - any positions, any magnitudes, clustered or spread - the LTS (with and without reweighting), S and MM fits stay within a distance of the fit of the good observations that the good data determine, and the scale stays bounded by the good data. Moving the outliers farther does not change the fit of methods that reject them.",
 ["fault_sequences", "configurations"],
 "every subset of observations up to the allowance of small data sets x corruption patterns (vertical, opposite signs, point-mass leverage, spread leverage) x magnitudes x estimators",
 "No regression test contains an outlier.",
 [L, S, MMF],
 [("trimming/bounded rho", "robpy/regression/"), ("robust reweighting scale", L+":fit")],
 ["predict on good points, scale"])
PC = "robpy/pca/"
prop("C27", "Robust PCA gives orthonormal components and true projections",
 "After fitting a robust PCA, the component matrix has orthonormal columns, one per retained component (in order of nonincreasing explained variance for ROBPCA, of nonincreasing sign-covariance eigenvalue for spherical PCA), with the number of components as requested or the smallest reaching the requested explained-variance share. Transforming is the projection of the centred data on the components, projecting is idempotent and leaves orthogonal residuals, explained variances match the retained number, and score/orthogonal distances and their cutoffs are those implied by the fitted location, components and variances.",
 ["inputs", "configurations"],
 "all data sets of a bounded family (p<n, p>n, rank deficient, dominated by few directions) x method x number of components x variance share x final MCD step x seeds",
 "Two shape tests on isotropic noise.",
 [PC+"base.py", PC+"robpca.py", PC+"spca.py"],
 [("eigen-decompositions and sorting", PC+"robpca.py:fit, spca.py:fit"), ("projection", PC+"base.py")],
 ["components_, location_, explained_variance_, transform, project, plot_outlier_map(return_distances=True)"])
prop("C28", "Robust PCA follows shifts and rotations and resists outlying rows",
 "Shifting, rotating or uniformly rescaling the data (same seed) shifts, rotates or rescales the fitted centre and principal subspace and leaves score and orthogonal distances unchanged up to that scale. If any set of rows up to the tolerated fraction is replaced by arbitrary far values, the centre stays near the good data and, for ROBPCA with its final MCD step, the fitted subspace stays that of the good rows; spherical PCA always terminates, also when its centre coincides with an observation.",
 ["inputs", "fault_sequences", "configurations"],
 "a family of data sets x rigid motions and scale factors x every subset of outlying rows up to a count x corruption patterns x method",
 "No PCA test contains an outlier or relates two fits.",
 [PC+"robpca.py", PC+"spca.py", "robpy/utils/outlyingness.py", "robpy/utils/median.py"],
 [("outlyingness-based h-subset", PC+"robpca.py"), ("L1 median and spatial signs", PC+"spca.py, robpy/utils/median.py")],
 ["location_, subspace spanned by components_, distances"])
prop("C29", "Refitting an estimator equals fitting a fresh one, after any history",
 "Whatever sequence of fits, transforms, predictions and failed fits an estimator object has gone through, fitting it on a data set yields the same parameters, fitted state and outputs as fitting a newly constructed object with the same settings. Transforming or predicting never changes what later calls return, and constructor settings are unchanged by fitting (except those chosen during fit when left open: the number of components, the transformation method).",
 ["histories", "configurations"],
 "all call histories over an alphabet of data sets of different sizes/signs and operations, explored as a graph of observable object states up to closure or a depth bound, for every estimator class",
 "Every test uses a fresh object and a single fit.",
 [CM, D, T, "robpy/preprocessing/scaling.py", DD, "robpy/regression/", "robpy/pca/", "robpy/covariance/"],
 [("state is (re)initialised in fit", "all fit methods"), ("stored constructor settings", "all __init__")],
 ["public outputs on probe data after each history"],
 [("estimator __dict__", "all attributes that influence later calls", "every estimator")])
prop("C30", "Results depend only on data and seed; inputs and global state stay untouched",
 "Every fit, transform, predict, impute and helper call leaves its input arrays and frames, and NumPy's global random state, exactly as they were. Estimators with a fixed seed (or without randomness) return the same result on repeated runs whatever the global random state, including randomised sub-steps, and estimators constructed with equal settings can be cloned by scikit-learn and report those settings unchanged.",
 ["inputs", "configurations", "histories"],
 "every public operation of every estimator x memory layouts (C, Fortran, read-only, views, int/float, DataFrame) x global random states x seeds",
 "Tests never look at inputs after the call, nor at global random state, nor repeat a seeded run.",
 ["robpy/regression/lts.py", S, PC+"robpca.py", "robpy/utils/outlyingness.py", M, "robpy/covariance/", "robpy/preprocessing/"],
 [("local random generators", "lts.py, s.py, mcd.py, outlyingness.py"), ("copies before in-place updates", "cellmcd.py, transfo.py, ddc.py")],
 ["inputs before/after; np.random.get_state(); repeated results; sklearn.base.clone"])
prop("C31", "Separate estimators can be fitted concurrently without interference",
 "When two threads each construct and fit their own estimator (default settings included) on their own data, every interleaving of their steps gives each the result of running alone. No default argument, module-level object or global generator is a channel between estimator instances.",
 ["schedules"],
 "all interleavings, at line granularity of the library code, of two fits with at most the stated number of preemptions, for every estimator with shareable defaults or randomness",
 "Tests are single threaded; a race on a shared default object needs a particular interleaving.",
 ["robpy/preprocessing/scaling.py", DD, MMF, L, S, "robpy/univariate/base.py"],
 [("default estimator arguments", "RobustScaler, DDC, MMRegression constructors"), ("seeded sampling", "lts.py, s.py")],
 ["fitted attributes of each thread's estimator versus its sequential run"],
 [("shared default estimator instances", "created once at import", "constructor defaults")])
prop("C32", "Misuse is reported by the documented error instead of a wrong answer",
 "Calling any of robpy's own methods or result properties before a successful fit raises a not-fitted error or ValueError - also after a fit that was refused -, never returns numbers or fails with an unrelated internal error. Inadmissible settings or data (alpha outside its range, wrong column count, non-numeric columns, unknown method, plot or cleaning order, non-positive Box-Cox data, unsupported NaN, lengths that differ) raise ValueError and leave a fitted estimator's answers as they were, while every admissible setting on admissible data succeeds.",
 ["configurations", "histories"],
 "every public method of every estimator before fit; every boundary and just-outside value of every documented setting",
 "Two tests in total exercise an error path.",
 ["robpy/univariate/base.py", B, DD, L, S, MMF, D, T, CM, "robpy/pca/"],
 [("not-fitted guards", "base classes"), ("argument checks", "fit methods")],
 ["exception types"])
prop("C33", "Bundled data sets load completely, consistently and independently",
 "Every data-set loader returns the documented number of samples and features in the documented column order with the values of the bundled file, whatever the working directory and the preferred text encoding are; the array and DataFrame forms hold the same values, and the metadata (feature names, description, file name and, where given, categorical features) match the data. Modifying what one call returned never affects what a later call returns.",
 ["configurations", "histories"],
 "all loaders x both formats x all call/mutation histories up to depth 3",
 "One test checks only that an array comes back in array form.",
 ["robpy/datasets/base.py", "robpy/datasets/data/*.csv", "robpy/datasets/descr/*.rst"],
 [("column selection and conversion", "robpy/datasets/base.py:_load_data_and_descr")],
 ["returned Bunch objects"])
prop("C34", "Predictions and transforms treat each row on its own, in any container",
 "For every fitted estimator that maps rows (scaler, power transformer, DDC, regressions, PCA, covariance distances), the output for a batch of rows is the concatenation of the outputs for its rows: any sub-batch, order, repetition or single row gives the same values, also when some column is constant within the batch. DataFrame and array input give the same values.",
 ["inputs", "configurations"],
 "all sub-batches (every subset, every single row, repetitions, reversals) of probe matrices x every estimator with predict/transform/inverse/project",
 "Tests predict on the full training matrix only.",
 ["robpy/regression/base.py", S, L, MMF, PC+"base.py", "robpy/preprocessing/scaling.py", T, DD],
 [("stateless predict/transform", "predict/transform methods"), ("intercept column", S+":predict")],
 ["predict/transform on sub-batches"])
prop("C35", "Distance, median, outlyingness and matrix helpers equal their definitions",
 "The Mahalanobis helper, the inverse-submatrix helper, the weighted median, the L1-median, the Stahel-Donoho outlyingness and the eigenvalue-truncation/correlation helpers return what their definitions say for every admissible input: the L1-median minimises the summed distance (to its iteration tolerance) and terminates even if an iterate hits an observation, the weighted median splits the total weight, the outlyingness is the maximum over its directions of the median/MAD-standardised projection, with seeded directions that are distinct.",
 ["inputs", "schedules"],
 "all point configurations of small grids, all index subsets, all weightings, and all enumerated random direction choices",
 "Mahalanobis has one random test and outlyingness a shape test; the others none.",
 ["robpy/utils/distance.py", "robpy/utils/general.py", "robpy/utils/median.py", "robpy/utils/outlyingness.py", "robpy/covariance/utils/alter_covariance.py"],
 [("fixed-point iteration", "robpy/utils/median.py:l1median"), ("partition search", "robpy/utils/median.py:weighted_median"), ("block inverse", "robpy/utils/general.py"), ("direction sampling", "robpy/utils/outlyingness.py")],
 ["return values"])
prop("C36", "Diagnostic plots show the fitted quantities and their cutoffs",
 "Every diagnostic plot (distance-distance plot, regression outlier map, PCA outlier map, DDC cell map, CellMCD plots) draws one point or cell per observation at the coordinates given by the fitted distances, residuals, predictions or scores, draws its cutoff lines or ellipse at the documented quantiles, and, when names are given, annotates exactly the observations outside the annotation thresholds. Requested zooms select exactly those rows and columns, and plotting does not change the estimator.",
 ["inputs", "configurations", "histories"],
 "all plot types x options (quantiles, zoom as slice or index, annotation, robust/non-robust choices) on a family of fitted estimators",
 "Only the adjusted boxplot is ever drawn in a test.",
 [B, "robpy/regression/base.py", PC+"base.py", DD, CM, "robpy/covariance/utils/cellmcd_visualization_utils.py"],
 [("plot functions", "distance_distance_plot, outlier_map, plot_outlier_map, cellmap, cell_MCD_plot"), ("annotation masks", "robpy/covariance/utils/cellmcd_visualization_utils.py")],
 ["artists of the returned figure/axes; returned distances and thresholds"])
prop("C37", "Deterministic starts of DetMCD and CellMCD follow their published steps",
 "On every data set in general position, DetMCD returns the estimates of the best subset that concentration steps reach from its six published starts (wrapped correlation, rank correlation, normal scores, spatial signs, the half nearest to the median, and raw OGK; each turned into a scatter with Qn scales along its eigenvectors and a location, from which the nearest half is taken), with Qn standardisation below and tau standardisation from 1000 observations on. The initial estimate of CellMCD follows its published steps - cellwise detection with limited flags per column, imputation, wrapped covariance in principal directions, deletion of outlying rows - whether cells are missing or not, and follows any change of units.",
 ["inputs", "configurations"],
 "all starts of an enumerated family of data sets (shapes x lattice keys x corruption patterns x sizes x alphas), each followed to its fixed point; all settings of the initial estimator on cellwise and rowwise corrupted families",
 "The tests compare one DetMCD fit and no initial estimate with R; a wrong start is hidden by the other five on easy data.",
 ["robpy/covariance/mcd.py", "robpy/covariance/initial_ddcw.py", "robpy/covariance/ogk.py"],
 [("six starts", "robpy/covariance/mcd.py:DetMCD._get_initial_best_subsets"), ("selection of the best", "robpy/covariance/mcd.py:DetMCD.calculate_covariance"), ("initial cellwise estimate", "robpy/covariance/initial_ddcw.py:InitialDDCW.calculate_covariance")],
 ["location_, covariance_ of DetMCD and InitialDDCW"])
prop("C38", "Results depend on the numbers, not on how integers are stored",
 "Fitting, transforming or predicting with whole-number data gives, for every estimator, transformer and helper of the library, the same result whatever integer type stores them - signed or unsigned, from 8 to 64 bits, either byte order, different types per column or for X and y - as with float64: no difference, sum, power or logarithm overflows, wraps around or loses precision.",
 ["inputs", "configurations"],
 "every estimator setting and helper x data sets stretched over the whole range of a storage type x every storage type (and mixed ones)",
 "The tests use floating point data throughout.",
 ["robpy/univariate/base.py", "robpy/covariance/base.py", "robpy/preprocessing/transfo.py", "robpy/utils/rho.py", "robpy/utils/outlyingness.py", "robpy/utils/median.py", "robpy/utils/distance.py", "robpy/outliers/ddc.py", "robpy/regression/base.py", "robpy/pca/base.py"],
 [("conversion of univariate samples", "robpy/univariate/base.py:RobustScale.fit"), ("conversion of data matrices", "robpy/covariance/base.py:RobustCovariance.fit"), ("conversion of regression data", "robpy/regression/base.py:_convert_input_to_array")],
 ["public attributes and return values"])
prop("C39", "Copies and changed settings",
 "An estimator is described by its settings and its last fit alone. After set_params, the next fit gives what a newly constructed estimator with these settings gives, whatever was set or fitted before and in whatever order; until then the fitted results stay. A copy made at any point of this history (pickle, deepcopy, copy; clone for the settings) answers like the original, and what is done afterwards with one of the two never changes the other.",
 ["inputs", "configurations", "histories"],
 "all histories, up to a length, of fits on two data sets, each setting of each class changed and put back, and one copy of each kind with the history going on at the copy or at the original",
 "No test copies an estimator or changes a setting after construction.",
 ["robpy/preprocessing/transfo.py", "robpy/preprocessing/scaling.py", "robpy/preprocessing/data_cleaner.py", "robpy/outliers/ddc.py", "robpy/univariate/base.py", "robpy/covariance/base.py", "robpy/covariance/mcd.py", "robpy/covariance/ogk.py", "robpy/covariance/wrapping.py", "robpy/covariance/cellmcd.py", "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/regression/mm.py", "robpy/pca/robpca.py", "robpy/pca/spca.py"],
 [("constructors and fits of every estimator class", "robpy/*/*.py"), ("automatic choices written back", "robpy/preprocessing/transfo.py:RobustPowerTransformer.fit")],
 ["public attributes and return values of every object alive at the end of a history"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
