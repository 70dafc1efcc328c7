#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props_text.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import PROPS

M = "tslearn/metrics/"
T = []


def P(id, title, statement, over, q, why, files, mech, observe, note, technique="TLA+ specification; TLC exhaustive design model + TLC trace validation of the real code", state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe] if isinstance(observe, str) else observe, "hook_needed": "none: the public API already exposes the state"}
    if state:
        a["state"] = [{"name": n, "where": w} for n, w in state]
    T.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": q}, why_tests_cant=why, anchors=a), note, technique))


P("E01", "DTW is the minimum over all admissible warping paths",
  "For any two non-empty series of equal dimension (any lengths, trailing all-NaN timestamps ignored) and any global constraint, dtw, dtw_path and cdist_dtw return the square root of the smallest sum of squared point distances over warping paths inside the constraint region, and dtw_path_from_metric the smallest sum of the chosen metric or of the precomputed matrix. The returned path starts at (0,0), ends at the last pair, moves by unit steps in one or both coordinates, stays inside the region and attains the returned value. This holds for the NumPy and the PyTorch backend, and inputs are left unmodified.",
  ["inputs", "configurations"], "all pairs of series (lengths, dimensions, NaN padding), all constraint settings, both backends, all DTW entry points",
  "Optimality over exponentially many paths: a test compares a handful of values with constants, not with the minimum over every admissible path.",
  [M + "_dtw.py", M + "utils.py", M + "_masks.py"],
  [("accumulated cost recursion", "tslearn/metrics/_dtw.py:_njit_accumulated_matrix"), ("path retrieval", "tslearn/metrics/utils.py:__make_compute_path"), ("torch anti-diagonal recursion", "tslearn/metrics/utils.py:_torch_acc_matrix_from_dist_matrix")],
  "return values of dtw, dtw_path, dtw_path_from_metric, cdist_dtw",
  "The walker model proves the DP of the specification equal to the optimum over all paths for every pair of series up to length 3 over {0,1}; the implementation is held to that DP on an exhaustive small domain and on seeded random integer series.")

P("E02", "Constraint masks admit exactly the documented cells",
  "sakoe_chiba_mask, itakura_mask and compute_mask admit exactly the cells of the requested region for every pair of sizes: the Sakoe-Chiba band of radius r (widened by the length difference on the side of the longer series), the Itakura parallelogram of maximal slope s rescaled to the sizes, or all cells. A parameter given without a constraint name selects its region, the named constraint wins over the other parameter, defaults are radius 1 and slope 2, and giving both parameters without a name, or a slope that leaves a row or column empty, is reported. Measures that take the constraint work inside that same region.",
  ["inputs", "configurations"], "all pairs of sizes, radii and slopes >= 1, all combinations of the constraint arguments, both backends",
  "Doctests show five matrices; asymmetric sizes, radius beyond the size, infeasible slopes and argument precedence form a product no test enumerates.",
  [M + "_masks.py"], [("band", "tslearn/metrics/_masks.py:__make_sakoe_chiba_mask"), ("parallelogram", "tslearn/metrics/_masks.py:__make_itakura_mask"), ("selection", "tslearn/metrics/_masks.py:__make_compute_mask")],
  "returned masks", "Sizes up to 9x9 enumerated completely for 14 regions per backend, larger sizes sampled; cells on a rounding tie of the hundredths grid are left open.")

P("E03", "Frechet distance is the minimal bottleneck over admissible paths",
  "For any two non-empty series of equal dimension and any global constraint, frechet, frechet_path and cdist_frechet return the smallest, over warping paths inside the constraint region, of the largest point distance along the path, and frechet_path_from_metric the same for the chosen metric or precomputed matrix. The returned path is an admissible warping path inside the region that attains the value. This holds for both backends and trailing NaN timestamps are ignored.",
  ["inputs", "configurations"], "all pairs of series, all constraint settings, both backends, all Frechet entry points",
  "The min-max over exponentially many paths cannot be read off sample values.",
  [M + "_frechet.py", M + "utils.py"], [("bottleneck recursion", "tslearn/metrics/_frechet.py:_njit_accumulated_matrix"), ("pairwise matrix", "tslearn/metrics/_frechet.py:_cdist_frechet")],
  "return values", "As E01 with the bottleneck recursion.")

P("E04", "LCSS is the longest admissible common subsequence",
  "lcss and lcss_path return, divided by the shorter length, the size of the longest chain of index pairs that increases strictly in both series, whose points are within eps of each other and which lie inside the constraint region; lcss_path_from_metric does the same for the chosen metric or precomputed matrix. The returned path is such a chain of exactly that size. The calls always terminate, for every constraint and both backends.",
  ["inputs", "configurations"], "all pairs of series, eps, constraint settings, both backends, all LCSS entry points",
  "The optimum over all subsequences, and termination of the path retrieval for inputs that match nowhere near the diagonal, are not visible in sample values.",
  [M + "dtw_variants.py"], [("count recursion", "tslearn/metrics/dtw_variants.py:njit_lcss_accumulated_matrix"), ("path retrieval", "tslearn/metrics/dtw_variants.py:_return_lcss_path")],
  "return values", "The chain walker of the model shows the recursion to be the maximum and the backward retrieval to terminate on it.")

P("E05", "Subsequence and length-limited DTW are optimal",
  "dtw_subsequence_path returns the square root of the smallest cost of aligning the whole query with any contiguous part of the long series and a path that attains it; subsequence_cost_matrix and subsequence_path give the accumulated costs and an optimal path for every end column. dtw_limited_warping_length and dtw_path_limited_warping_length return the optimum over warping paths of at most max_length pairs, with a path that attains it within the limit, and raise ValueError when max_length is below the longer length.",
  ["inputs"], "all queries, long series and length limits, both backends",
  "Optimality over all end points, start points and path lengths.",
  [M + "dtw_variants.py"], [("subsequence recursion", "tslearn/metrics/dtw_variants.py:_njit_subsequence_cost_matrix"), ("per-length recursion", "tslearn/metrics/dtw_variants.py:_limited_warping_length_cost")],
  "return values", "Per-length DP in the specification; the model shows no path of a given length beats it.")

P("E06", "LB_Keogh is the envelope distance and never exceeds band-limited DTW",
  "lb_envelope returns, at each time and in each dimension, the minimum and maximum of the series over the window of the given radius clipped to the series. lb_keogh of two equal-length univariate series is the distance of the query to that envelope, whether the candidate or its envelope is given, and never exceeds dtw under the Sakoe-Chiba band of the same radius.",
  ["inputs"], "all series, radii, dimensions and both backends",
  "The lower-bound guarantee that makes pruning correct quantifies over every pair of series.",
  [M + "dtw_variants.py"], [("envelope", "tslearn/metrics/dtw_variants.py:_njit_lb_envelope"), ("bound", "tslearn/metrics/dtw_variants.py:lb_keogh")],
  "return values", "Exact integer comparison of squared values.")


P("E07", "Soft-DTW is the soft minimum over all admissible warping paths",
  "For any two non-empty series of equal dimension, any gamma > 0 and any global constraint, soft_dtw and cdist_soft_dtw return -gamma times the logarithm of the sum, over all warping paths inside the constraint region, of exp(-cost/gamma) with squared Euclidean costs. The normalized variants subtract half of the two self similarities computed under the same parameters. At gamma = 0 the value is the squared DTW; this holds for both backends, with NaN padding ignored.",
  ["inputs", "configurations"], "all pairs of series, gamma, constraints, backends and soft-DTW entry points (including SoftDTW over SquaredEuclidean)",
  "The sum ranges over exponentially many paths; tests compare a handful of decimals.",
  [M + "_soft_dtw.py", M + "softdtw_variants.py", M + "soft_dtw_fast.py", M + "utils.py"], [("soft recursion", "tslearn/metrics/_soft_dtw.py:_njit_accumulated_matrix"), ("torch recursion", "tslearn/metrics/utils.py:_torch_acc_matrix_from_dist_matrix")],
  "return values", "Series are scaled so that a path of integer cost c weighs exactly 2^-c; the specification sums the weights in a 29-bit soft float and the model shows the recursion equal to the sum over enumerated paths.")

P("E08", "Soft alignments and gradients are those of soft-DTW",
  "soft_dtw_alignment returns, for every cell, the share of the total path weight carried by the admissible paths through that cell (0/1 marks of one optimal path at gamma = 0). The gradient of soft-DTW with respect to either series, obtained through PyTorch autograd, SoftDTW.grad with SquaredEuclidean.jacobian_product, or the SoftDTWLossPyTorch module (batched, normalized or not, constrained or not, any upstream weights), equals the alignment-weighted sum of 2 (x_i - y_j).",
  ["inputs", "configurations"], "all pairs of series, gamma, constraints, batch sizes, dtypes, both backends",
  "Gradients of a function over all paths; tests compare a few constants for unconstrained series.",
  [M + "_soft_dtw.py", M + "soft_dtw_loss_pytorch.py", M + "softdtw_variants.py", M + "soft_dtw_fast.py"], [("backward recursion", "tslearn/metrics/_soft_dtw.py:_njit_soft_dtw_grad"), ("autograd function", "tslearn/metrics/soft_dtw_loss_pytorch.py:_SoftDTWLossPyTorch")],
  "returned matrices and gradients", "Expected alignments are forward times backward weights over the total; gradients compared in 2^-20 fixed point.")

P("E09", "The global alignment kernel sums over all alignments and is normalised",
  "unnormalized_gak returns the sum over all warping paths of the product of the local kernels k/(2-k), k = exp(-|x_i - y_j|^2 / (2 sigma^2)); gak and cdist_gak divide it by the square root of the product of the two self kernels, so the value never exceeds 1 and is 1 for identical series. sigma_gak is the median distance of sampled observed points times the square root of the length, gamma_soft_dtw twice its square, and a zero sigma is refused. This holds for both backends with NaN padding ignored.",
  ["inputs", "configurations"], "all pairs of series, sigma, lengths and dimensions, both backends",
  "A sum of products over exponentially many paths.",
  [M + "_gak.py", M + "softdtw_variants.py"], [("kernel recursion", "tslearn/metrics/_gak.py:_gak_from_gram_matrix_generic"), ("bandwidth", "tslearn/metrics/_gak.py:_sigma_gak")],
  "return values", "Rational local kernels 1/(2^(c+1)-1) in soft floats; the recursion is checked against enumerated paths in the model.")

P("E10", "Pairwise matrices hold the pairwise measures",
  "Entry (i,j) of cdist_dtw, cdist_frechet, cdist_soft_dtw, cdist_soft_dtw_normalized, cdist_gak, cdist_ctw and cdist_sax is the measure between series i of the first and series j of the second dataset, with the given parameters, whatever the number of jobs, the container (arrays, lists, tensors, padded or not) and the other series present. With one dataset only the matrix is square and symmetric and compares the dataset with itself. Inputs are not modified.",
  ["inputs", "configurations"], "all datasets (sizes, variable lengths, dimensions), measures, parameters, n_jobs, containers and backends",
  "The product of measures, parameters, containers and job counts; tests use one or two equal-length datasets.",
  [M + "utils.py", M + "_dtw.py", M + "_soft_dtw.py", M + "_gak.py", M + "_frechet.py", M + "ctw.py", M + "sax.py"], [("pairwise loop", "tslearn/metrics/utils.py:_cdist_generic")],
  "returned matrices", "Every entry of DTW, Frechet, soft-DTW and GAK matrices is recomputed by the specification.")

P("E11", "The backends agree and the right one is selected",
  "instantiate_backend returns the first argument that is a backend, or the backend named by or holding the first such argument, and NumPy otherwise. Metric functions give the same values with NumPy arrays, tensors and be='pytorch', and array-valued results are tensors exactly when the PyTorch backend is selected. So do the functions of the Backend interface common to both (reductions, rounding, indices, distances, construction, copies, linear algebra).",
  ["inputs", "configurations"], "all argument lists; all metric functions on random series and parameters",
  "Agreement of two independent implementations over all inputs.",
  ["tslearn/backend/backend.py", "tslearn/backend/pytorch_backend.py", "tslearn/backend/numpy_backend.py", M + "utils.py"], [("selection", "tslearn/backend/backend.py:instantiate_backend")],
  "returned values and their types", "Values compared with 8 significant digits.")

P("E12", "Canonical time warping alternates CCA and optimal alignment",
  "ctw_path returns an admissible warping path inside the constraint region that is an optimal DTW path between the projections of the two series by the returned CCA (between the first components when no update is allowed), and a score which is the DTW of those projections. ctw returns that score.",
  ["inputs", "configurations"], "all pairs of series, possibly of different dimensions, iteration limits, components and constraints",
  "Optimality of the path in a space that depends on the data.",
  [M + "ctw.py"], [("alternation", "tslearn/metrics/ctw.py:ctw_path")],
  "return values", "Optimality in 10^-4 fixed point. The score after an update is a known finding (pinned by the tests), so scores of updated runs are only reported for the listed inputs.")

U = "tslearn/utils/"
P("D01", "Datasets have one canonical representation",
  "to_time_series_dataset turns any accepted representation of the same series (nested lists, arrays, data frames, tensors, a single series) into one float array of shape (number of series, longest length, dimension) of the chosen backend: values unchanged, trailing all-NaN points dropped, shorter series padded with NaN, missing values inside a series kept. Formatting again changes nothing, results never share memory with the input, and inputs are not modified. to_time_series, ts_size, check_equal_size, check_dataset and check_dims agree with that representation and refuse exactly the data that break the requested condition.",
  ["inputs"], "all series and datasets in all accepted representations, lengths, dimensions, missing values, both backends",
  "The guarantee ranges over a product of representations, paddings and missing values of which doctests show a handful.",
  [U + "utils.py"], [("formatting", U + "utils.py:to_time_series_dataset"), ("length", U + "utils.py:_ts_size"), ("checks", U + "utils.py:check_dataset")],
  "returned arrays, flags, exceptions", "The formatting laws (idempotent, tight, lengths kept) are checked exhaustively on small datasets with missing values.")

P("D02", "Conversions and text files preserve datasets",
  "Converting a dataset to the scikit-learn, pyts, seglearn, stumpy, sktime, pyflux, tsfresh and cesium formats keeps every observed value at its series, time stamp and dimension, in the layout of the target, for every representation of the dataset and without modifying it; converting back gives the canonical dataset again (series of at least one observed point, two for cesium; pyts only for equal lengths, pyflux only for one series). time_series_to_str / str_to_time_series and save_time_series_txt / load_time_series_txt restore every float exactly, and series of different lengths are restored to the same lengths.",
  ["inputs"], "all datasets, dimensions, lengths, missing values, target formats, extreme floats",
  "Round trips must hold for every dataset, including those with one point, several dimensions, unequal lengths, missing values.",
  [U + "cast.py", U + "utils.py"], [("conversions", U + "cast.py:to_sktime_dataset"), ("text", U + "utils.py:time_series_to_str"), ("files", U + "utils.py:save_time_series_txt")],
  "converted objects, files, restored arrays", "Round trips are theorems of the model; floats are compared as bit patterns.")

P("D03", "The dataset cache serves complete versions and survives failures",
  "UCR_UEA_datasets.load_dataset returns a complete version of the dataset: the cached one when use_cache is set and it is complete (no download), else the one the server delivers, which is then cached. When the download fails, is corrupted or is incomplete it returns None four times with a RuntimeWarning, an existing complete copy survives a failed download, and a load killed at any point or out of disk space never leaves a damaged copy that a later load would return. Only the directory of that dataset changes, whatever name is given; list_cached_datasets lists the datasets present.",
  ["histories", "crash_points", "fault_sequences"], "all histories of publications, loads, failed downloads, kills and disk-full errors on three datasets, any name",
  "Crashes in the middle of a download or extraction and sequences of failures cannot be reached by calling load_dataset once.",
  ["tslearn/datasets/ucr_uea.py", "tslearn/datasets/datasets.py", U + "utils.py"], [("load", "tslearn/datasets/ucr_uea.py:load_dataset"), ("extraction", "tslearn/datasets/datasets.py:extract_from_zip_url")],
  ["returned arrays and warnings", "files below the root directory"], "The transition system of the cache is checked exhaustively for two datasets; its histories are generated by TLC and replayed with a stub server, kills at file operations and file size limits.",
  state=[("cache directory", "tslearn/datasets/ucr_uea.py:_data_dir")])

PP = "tslearn/preprocessing/"
P("T01", "Scalers normalise the series they are given with the fitted statistics",
  "TimeSeriesScalerMinMax maps the minimum and maximum of its reference group to the bounds of value_range affinely, and TimeSeriesScalerMeanVariance maps the mean and population standard deviation of its reference group to mu and std. The group is the transformed series itself when per_timeseries is set, else the whole fitted dataset, restricted to the feature when per_feature is set; missing values and padding are ignored and stay missing, and a constant group maps to the lower bound (to mu). An earlier fit leaves no trace, inputs are not modified, and an empty range, another number of features or an unfitted scaler is refused.",
  ["inputs", "configurations"], "all datasets with missing values and unequal lengths, all four group choices, ranges, offsets and units",
  "Normalisation must hold for every dataset, including constant, missing, far-from-zero and unequal-length series, for every grouping.",
  [PP + "preprocessing.py"], [("min-max", PP + "preprocessing.py:TimeSeriesScalerMinMax"), ("mean-variance", PP + "preprocessing.py:TimeSeriesScalerMeanVariance")],
  "transformed arrays, exceptions", "Integer data in several units are compared as exact rationals (squares for the mean-variance scaler).")

P("T02", "Resampling, imputation and synchronisation interpolate as documented",
  "TimeSeriesResampler turns each series, from its first to its last observed point, into sz equidistant points of its linear interpolation. TimeSeriesImputer fills missing values with the mean, median, previous, next or linearly interpolated observed values of the same feature, a constant, or the given callable, keeps observed values, and keeps the trailing padding exactly when keep_trailing_nans is set. TimeSeriesFeatureSynchronizer linearly interpolates every feature at the observed time stamps of the reference feature (at given increasing time stamps, else at equidistant ones); inputs are not modified and unknown methods or unordered time stamps are refused.",
  ["inputs", "configurations"], "all datasets of unequal lengths with missing values, all methods, target sizes, reference features and time stamps",
  "Interpolation positions, gaps at either end and single-point series interact with padding; doctests cover a handful.",
  [PP + "preprocessing.py"], [("resample", PP + "preprocessing.py:TimeSeriesResampler"), ("impute", PP + "preprocessing.py:TimeSeriesImputer"), ("synchronise", PP + "preprocessing.py:TimeSeriesFeatureSynchronizer")],
  "transformed arrays, exceptions", "Values compared as exact rationals.")

PW = "tslearn/piecewise/piecewise.py"
P("T03", "PAA, SAX and 1d-SAX compute their symbols, distances and reconstructions",
  "PAA returns the means of n_segments segments of equal length, SAX the symbol whose Gaussian-equiprobable interval holds that mean, 1d-SAX additionally the symbol of the least-squares slope of the segment (after one standardisation of each feature by the fitted data when scale is set). distance and the distances of representations are the segment-weighted Euclidean distance (PAA, never above the Euclidean distance when the segments cover the series), MINDIST (SAX, also cdist_sax) and the distance of the reconstructions (1d-SAX). inverse_transform gives the segment means, interval medians, or segments of median mean and slope, in the original units, with zeros after the last segment.",
  ["inputs", "configurations"], "all datasets, numbers of segments (dividing the length or not), alphabets, sigma, dimensions, scaling",
  "Symbols depend on exact comparisons with quantiles for every series; lower bounding is a universal statement.",
  [PW, "tslearn/metrics/cysax.py", M + "sax.py"], [("paa", PW + ":PiecewiseAggregateApproximation"), ("sax", PW + ":SymbolicAggregateApproximation"), ("1d-sax", PW + ":OneD_SymbolicAggregateApproximation"), ("distances", "tslearn/metrics/cysax.py:cydist_1d_sax")],
  "representations, distances, reconstructions", "Lower bounding of the PAA and SAX distances is proved by TLC on all pairs of small series; means within 2^-14 of a quantile admit both symbols; scaling uses series of equal lengths.")

BY, NB = "tslearn/barycenters/", "tslearn/neighbors/"
CLS = "tslearn/clustering/"
P("C01", "Barycenters are weighted averages under optimal alignments",
  "euclidean_barycenter returns the weighted mean; each DBA iteration replaces every point of the barycenter by the weighted mean of the points aligned with it under optimal (constrained) DTW alignments, in either formulation, and the cost never increases. The iteration starts from the given barycenter, or from the resampled mean of the series, and ends after the iteration following the first one that changes the cost by less than tol, or after max_iter. The subgradient variant makes weighted subgradient steps, softdtw_barycenter returns a stationary point of the weighted soft-DTW objective no worse than its start; weights may have any scale, inputs are not modified.",
  ["inputs", "configurations"], "all datasets (unequal lengths, dimensions, weights, initial barycenters), constraints, iteration limits and tolerances",
  "An averaging step must agree with every optimal alignment of every series; tests compare a few rounded outputs.",
  [BY + "dba.py", BY + "softdtw.py", BY + "euclidean.py"], [("averaging", BY + "dba.py:dtw_barycenter_averaging_one_init"), ("MM formulation", BY + "dba.py:_mm_update_barycenter"), ("Petitjean formulation", BY + "dba.py:_petitjean_update_barycenter"), ("soft-DTW barycenter", BY + "softdtw.py:softdtw_barycenter")],
  "returned barycenters", "TLC proves on all small datasets that averaging over any choice of optimal alignments never increases the cost; single steps are exact rationals, runs are compared with the chain of their steps; scenarios whose number of tied alignments exceeds 60 are skipped.")

P("C02", "TimeSeriesKMeans alternates nearest-centre labels and barycenters",
  "Each iteration labels every series by a nearest centre under the metric and replaces each centre by the barycenter of its members; it ends at the first iteration whose inertia is within tol of the one before, or after max_iter, and the inertia never increases (Euclidean, DTW). The fitted labels, inertia (mean squared distance to the nearest centre), transform (the distances) and predict belong to the returned centres. Of n_init attempts the one of least inertia is kept, an attempt that leaves a cluster empty is repeated (ten in all), every cluster has a member, and data, parameters and init are not modified.",
  ["inputs", "configurations"], "all datasets, numbers of clusters, metrics and their parameters, initialisations, iteration limits, n_init, n_jobs",
  "Consistency of labels, inertia, centres and predictions must hold whenever the loop happens to stop; tests check a few shapes and seeds.",
  [CLS + "kmeans.py", CLS + "utils.py"], [("iteration", CLS + "kmeans.py:TimeSeriesKMeans._fit_one_init"), ("assignment", CLS + "kmeans.py:TimeSeriesKMeans._assign"), ("best attempt", CLS + "kmeans.py:TimeSeriesKMeans.fit")],
  "labels_, inertia_, cluster_centers_, n_iter_, predict, transform, fit_predict", "TLC checks descent and termination of the iteration on all small datasets; the inertia of soft-DTW is left open; nothing is claimed when every attempt leaves a cluster empty.")

P("C03", "KernelKMeans labels by weighted mean kernel similarity",
  "fit returns labels that are a reassignment, by largest sample-weighted mean kernel similarity, of a labeling without empty clusters, and the inertia of that reassignment (sum of 2 minus twice the similarity); successive iterations follow from each other and end when the inertia changes by less than tol. predict assigns by the similarities to the fitted members, the attempt of least inertia is kept. Data and kernel_params are not modified, and a second fit is as a fit of a new object.",
  ["inputs", "configurations"], "all datasets, kernels and parameters, sample weights, numbers of clusters, n_init, max_iter",
  "Label and inertia must agree at whatever iteration the loop stops, with weights; tests use one dataset.",
  [CLS + "kmeans.py"], [("iteration", CLS + "kmeans.py:KernelKMeans._fit_one_init"), ("similarity", CLS + "kmeans.py:KernelKMeans._compute_dist")],
  "labels_, inertia_, n_iter_, predict, fit_predict", "Integer kernels are compared as exact rationals, quantifying over all labelings before the last reassignment; the global alignment kernel in fixed point.")

P("C04", "Cross-correlation and KShape align, extract and assign shapes",
  "cdist_normalized_cc returns the largest normalised cross-correlation over all shifts (also with self_similarity), and y_shifted_sbd_vec delays each series by a maximising shift, filling with zeros. A KShape iteration replaces each centre by the standardised dominant eigenvector of its centred, aligned members, oriented with them; a step that increases the inertia, or lowers it by less than tol, is undone and ends the run. Labels and inertia belong to the returned centres, predict labels the standardised series by the most similar centre whatever the training data, and the attempt of least inertia is kept.",
  ["inputs", "configurations"], "all datasets of equal length, dimensions, initial centres, iteration limits, n_init",
  "Maxima over shifts, eigenvectors and rollback must be right for all data; tests check shapes of outputs.",
  [CLS + "kshape.py", M + "cycc.py"], [("cross-correlation", M + "cycc.py:normalized_cc"), ("alignment", M + "cycc.py:y_shifted_sbd_vec"), ("shape extraction", CLS + "kshape.py:KShape._shape_extraction"), ("iteration", CLS + "kshape.py:KShape._fit_one_init")],
  "return values, cluster_centers_, labels_, inertia_, n_iter_, predict", "Correlations of integer series are exact; centres are checked in fixed point (unit norm, eigenvector residual, Rayleigh quotient against all small integer vectors).")

P("C05", "TimeSeriesDBSCAN returns the density-connected components",
  "Core series are exactly those with at least min_ts series (themselves included) within distance eps under the metric and its parameters; labels number the density-connected components of core series in order of first core series, a border series has the label of the lowest such component with a core series within eps of it, all others are noise (-1). core_ts_indices_ and components_ list the core series. The result does not depend on n_jobs, and data and parameters are not modified.",
  ["inputs", "configurations"], "all datasets (unequal lengths, dimensions), metrics and parameters, eps (also equal to a distance), min_ts, n_jobs",
  "Density connectivity quantifies over all pairs and chains of series; tests use two datasets.",
  [CLS + "dbscan.py"], [("neighbourhoods", CLS + "dbscan.py:TimeSeriesDBSCAN.fit")],
  "labels_, core_ts_indices_, components_, fit_predict", "Integer data with dtw, frechet, euclidean and precomputed distances exactly, ctw and softdtw_normalized from their (separately checked) distance matrices.")

P("C06", "silhouette_score is the mean silhouette under the chosen metric",
  "silhouette_score returns the mean over the series of (b - a) / max(a, b), where a is the mean distance to the other members of its cluster and b the smallest mean distance to another cluster (0 for a singleton). The distances are those of the metric (DTW by default, normalised soft-DTW, Euclidean, precomputed, or a callable applied to the series without padding) with metric_params and keyword parameters. The score does not depend on n_jobs, the container or the names of labels; inputs are not modified.",
  ["inputs", "configurations"], "all datasets, labelings, metrics and parameters, containers, n_jobs",
  "Parameters must reach the metric and padding must not, for every metric; tests check one value each.",
  [CLS + "utils.py"], [("score", CLS + "utils.py:silhouette_score")],
  "return value", "Integer distances and callables are specified in fixed point; named metrics against the precomputed matrix of that metric.")

P("N01", "Nearest-neighbor estimators find, and decide by, the nearest series",
  "kneighbors of KNeighborsTimeSeries and of the classifier and regressor returns, for every query, min(n_neighbors, available) distinct training series no farther under the chosen metric and metric_params than any other, sorted by distance, with those distances; without query every training series is looked up and is not its own neighbor (SAX is fitted on the training series). predict and predict_proba are the majority (smallest label on ties) and the shares, or the mean target, of those neighbors, weighted by inverse distance with weights='distance'. This holds after set_params and refit and after failing calls (unsupported settings, unfitted, other dimension), and no call changes parameters, data or targets.",
  ["inputs", "configurations", "histories"], "all datasets (variable length, dimensions, containers), metrics and parameters, numbers of neighbors, weights, labels, multi-output targets; histories of fits, queries and failures",
  "The estimators swap their metric while they work; a query left out, a stale fit or a parameter that is not passed shows only for particular metrics and histories.",
  [NB + "neighbors.py"], [("search", NB + "neighbors.py:KNeighborsTimeSeriesMixin.kneighbors"), ("decision", NB + "neighbors.py:_predict_generic")],
  "return value", "Search and vote are specified over distances; elastic distances are computed by the specification, real-valued ones (soft-DTW, SAX, CTW) taken from the functions the E and T properties decide.")

P("S01", "Support vector machines solve the problem their parameters state",
  "After fit, dual_coef_ and intercept_ of TimeSeriesSVC (two classes) and TimeSeriesSVR satisfy, up to tol, the optimality conditions of the dual problem with the requested kernel (GAK with sigma = sqrt(gamma/2), linear, polynomial, RBF), C, sample and class weights and epsilon; gamma='auto' is gamma_soft_dtw of the training series. Decision values (SVR predictions) are the kernel expansion over the training series, also for a series on its own; SVC labels follow their sign, with several classes the votes of the machines trained on each pair; support_vectors_ are the series at support_, by class. Inputs and parameters are not modified.",
  ["inputs", "configurations"], "all datasets (variable length for GAK, dimensions, containers), kernels and their parameters, weights, labels, earlier fits",
  "A parameter that is dropped or passed wrongly still gives plausible predictions; the optimality conditions leave no room for it.",
  ["tslearn/svm/svm.py"], [("kernel", "tslearn/svm/svm.py:TimeSeriesSVMMixin._preprocess_sklearn"), ("fit", "tslearn/svm/svm.py:TimeSeriesSVR.fit")],
  "return value", "Optimality conditions in fixed point; the linear kernel is computed by the specification, GAK taken from cdist_gak (E11), other kernels from their formula.")

P("Y01", "Early classification decides by the stated expected cost, and streams agree",
  "NonMyopicEarlyClassifier decides at the first time t >= min_t at which no later time has a lower expected cost: cluster membership of the prefix (logistic in lamb times the relative distance), times class shares of the clusters, times error rates of the time-u classifier on the held-out half per true class and cluster, plus cost_time_parameter times u. Label, probabilities, cost and early_predict follow from that decision and the classifier of that time; what comes after the decision has no influence. A generator returns after each chunk what early_predict returns for all timestamps received so far; malformed chunks are ignored with a warning, more timestamps than in training are refused, streams are independent.",
  ["inputs", "configurations", "histories"], "all datasets, labels, base classifiers, costs, min_t; all chunkings of streams, interleaved streams and malformed chunks",
  "A wrong index in time, cluster or class still gives plausible early decisions; streams must agree with the batch for every chunking.",
  ["tslearn/early_classification/early_classification.py"], [("costs", "tslearn/early_classification/early_classification.py:NonMyopicEarlyClassifier._expected_costs"), ("streams", "tslearn/early_classification/early_classification.py:NonMyopicEarlyClassifier._generate_early_predictions")],
  "return value", "Costs in fixed point (10^-4); near-ties leave both decisions open. Cluster labels and the predictions of the base classifier are taken as fitted (C01/C02, N01); their use in rates, costs and decisions is specified.")

P("M01", "The matrix profile is the distance to the nearest non-trivial match",
  "MatrixProfile.transform gives, for every subsequence, the Euclidean distance (of the standardised subsequences with scale) to the nearest subsequence of the same series more than ceil(m/4) positions away, infinity if there is none, whatever the implementation (numpy or stump), the container, the units and the series seen by fit. A series shorter than the longest one has its own profile, followed by NaN; inputs and parameters are not modified.",
  ["inputs", "configurations"], "all datasets of one-dimensional series (variable length, containers), subsequence lengths, implementations, scaling",
  "The minimum over all pairs outside a band must hold for every series, window and implementation; the tests compare two implementations on one random series.",
  ["tslearn/matrix_profile/matrix_profile.py"], [("profile", "tslearn/matrix_profile/matrix_profile.py:MatrixProfile._transform"), ("segments", "tslearn/matrix_profile/matrix_profile.py:_series_to_segments")],
  "return value", "Distances are computed by the specification; gpu_stump needs a GPU and is left out.")

P("F01", "VARIMA forecasts follow the fitted model; AutoVARIMA picks a local optimum",
  "Forecasts of VARIMA continue the recursion of the fitted coefficients on the differenced series (one-step errors of the past, zero errors in the future), undone for differences and seasonality, for the training series (predict() and predict(X_train) alike) and for new ones; without moving average the coefficients are the mean of the per-series least-squares solutions and exact recurrences are continued exactly. lle_ is the likelihood of the one-step errors and fitting never makes it worse than the starting coefficients; AutoVARIMA takes the smallest stationary d (KPSS), or the default, and an order no neighbouring order of which has a smaller criterion, and forecasts like that VARIMA. Series too short or of the wrong dimension are refused, inputs and parameters stay unmodified, and a refit equals a fresh fit.",
  ["inputs", "configurations"], "all datasets (dimensions, variable length), orders p, d, q, seasonality and horizons",
  "Forecasts combine differencing, coefficient layout, lag order and padding; errors show only for d > 1, several dimensions or q > 1, which the tests do not sample.",
  ["tslearn/forecasting/_arima.py"], [("fit", "tslearn/forecasting/_arima.py:VARIMA"), ("order search", "tslearn/forecasting/_arima.py:AutoVARIMA")],
  "return values, fitted attributes", "The specification runs the recursion on the fitted coefficients in fixed point; the optimiser itself is only required not to be worse than its starting point.")

P("B01", "A saved model, once loaded, is the model that was saved",
  "In every history of creating, fitting, refitting, cloning, copying, saving (JSON, HDF5, pickle, Python's pickle), loading and deleting, a loaded estimator has the parameters, the fitted attributes (neighbor estimators: the outputs only) and the outputs of the estimator saved, through any chain of formats, can be refitted like a new one, and saving changes nothing. Saving an unfitted estimator raises NotFittedError, saving to an existing HDF5 path FileExistsError, and parameters JSON or HDF5 cannot represent (callables) are refused. A failed save or load leaves files and estimators as they were.",
  ["histories", "configurations", "inputs"], "all serializable estimators, configurations, and histories of the operations on several objects and files",
  "State leaks between objects, files and formats only in particular sequences (save, refit, overwrite, load, re-save); the tests save once and load once.",
  ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py", "tslearn/neighbors/neighbors.py", "tslearn/shapelets/shapelets.py"],
  [("formats", "tslearn/bases/bases.py:BaseModelPackage"), ("hdf5", "tslearn/hdftools/hdftools.py")],
  "estimators, files, exceptions", "TLC generates the histories (SerialGen) and judges the recorded replies against the state machine (Serial).")

P("B02", "Estimators depend only on their parameters and their last fit",
  "After any history of constructing, set_params, fitting (failed or on invalid data too), fit_transform/fit_predict, cloning, copying, calls (failed too) and use of the global random generator, an estimator with a random_state that was last fitted to a dataset has the parameters, fitted attributes and outputs of a fresh estimator fitted to it, whatever the other estimators do. fit returns the estimator and leaves inputs and parameters alone, calls do not change it, fit_transform equals fit then transform, clones and estimators never fitted raise NotFittedError.",
  ["histories", "configurations", "inputs"], "all estimators, configurations, pairs of datasets (lengths, containers) and histories of the operations on two estimators",
  "State of an earlier fit, of a failed call or of another estimator shows only after particular sequences; the tests fit each estimator once.",
  ["tslearn/bases/bases.py", "tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/shapelets/shapelets.py", "tslearn/neighbors/neighbors.py", "tslearn/piecewise/piecewise.py", "tslearn/preprocessing/preprocessing.py", "tslearn/svm/svm.py", "tslearn/early_classification/early_classification.py", "tslearn/forecasting/_arima.py"],
  [("shared base", "tslearn/bases/bases.py:TimeSeriesMixin"), ("refit", "tslearn/shapelets/shapelets.py:LearningShapelets.fit")],
  "estimators, return values, exceptions", "TLC generates the histories (LifeGen) and judges the recorded replies against the state machine (Life). Nothing is said about the fitted state after set_params or an attempted fit on invalid data until the next fit.")

P("B03", "Predictions and transforms treat every series of a batch on its own",
  "For a fitted estimator, the row a series gets from predict, predict_proba, decision_function, transform, kneighbors, locate or predict_class_and_earliness is the same in every batch: alone, in any order, repeated, among other series (of other lengths where variable length is supported) and with any missing time stamps appended. Inputs are not modified.",
  ["inputs", "histories", "configurations"], "all fitted estimators, configurations, pools of series (variable length) and sequences of batches drawn from them",
  "Leakage between the series of a batch (shared statistics, padding, sorting, warm starts) shows only when the same series is queried in different company; the tests query one batch.",
  ["tslearn/preprocessing/preprocessing.py", "tslearn/shapelets/shapelets.py", "tslearn/neighbors/neighbors.py", "tslearn/clustering/kmeans.py", "tslearn/piecewise/piecewise.py", "tslearn/early_classification/early_classification.py", "tslearn/svm/svm.py", "tslearn/matrix_profile/matrix_profile.py", "tslearn/forecasting/_arima.py"],
  [("padding", "tslearn/shapelets/shapelets.py:LearningShapelets._preprocess_series"), ("scaling", "tslearn/preprocessing/preprocessing.py:TimeSeriesScalerMinMax.transform")],
  "return values", "The specification learns the function from series to rows from the trace and rejects every answer that contradicts it; tolerance 2e-7 (3e-5 for the single-precision network).")

P("L01", "Shapelet models compute what their weights say",
  "After any sequence of replacing weights, transform gives for every shapelet the smallest mean squared distance to a window of the (min-max scaled) series, locate the start of such a window, predict_proba and predict the probabilities and the most likely class of the classification layer on the transform, and shapelets_, shapelets_as_time_series_ and get_weights the weights themselves. Missing time stamps at the end are ignored; the default numbers and lengths of shapelets follow the published heuristic; series shorter than a shapelet, too long or of another dimension and single-class training sets are refused; inputs and parameters are not modified.",
  ["inputs", "configurations", "histories"], "all fitted models (sizes, dimensions, classes, scaling, variable length), weights and queries",
  "Distances of several multivariate shapelets to padded series are computed by reshaped matrix products and masks; the tests use one shapelet in one dimension.",
  ["tslearn/shapelets/shapelets.py"], [("distances", "tslearn/shapelets/shapelets.py:LocalSquaredDistanceLayer"), ("locations", "tslearn/shapelets/shapelets.py:GlobalArgminPooling1D")],
  "return values", "The training itself (gradient descent by Keras) is not specified beyond the number of epochs, shapes and finite weights.")

P("P01", "Forecasting errors are the weighted averages they are defined to be",
  "mae and mse equal the average over features (uniform, weighted or none) of the weighted average over time stamps of the weighted average over series of the absolute and squared errors; mase equals mae divided by the mean absolute error of the naive m-seasonal forecast of the training data, per feature for raw values and over all features otherwise. The result does not depend on the container or units (mase) of the data, inputs are not modified, and data of different shapes, with missing values or with weights of the wrong number are refused with a ValueError.",
  ["inputs", "configurations"], "all datasets, weights, seasonal periods, aggregations and containers",
  "The tests check a few hand-made datasets in which series, time stamps and features have nearly equal errors, so that most mix-ups of axes and weights stay invisible.",
  ["tslearn/metrics/performance.py"], [("mae", "tslearn/metrics/performance.py:mae"), ("mase", "tslearn/metrics/performance.py:mase")],
  "return values, exceptions", "Exact rationals. For a weighted aggregation of several features by mase, the scale may be averaged uniformly or with the weights. Zero total weights, seasonal periods longer than the training data and training data with missing values are unspecified.")

P("G01", "Generated random walks follow the model, seed and source of randomness given",
  "Under any history of seeding and drawing, random_walks and random_walk_blobs return walks whose first value and steps are independent normal numbers of the requested mean and standard deviation, blobs are copies of one walk (steps of standard deviation 1) plus white noise of the requested level, labels count the blobs in order. The numbers depend only on the state of the source: an integer seed fixes them and leaves every other source alone, a RandomState or the global generator (None) advances with each call; mean and standard deviation only shift and scale the steps.",
  ["histories", "inputs", "configurations"], "all histories of seeding and drawing on the global source, two private sources and integer seeds, and all sizes, means, deviations and noise levels",
  "Reproducibility breaks show only in sequences of calls on several sources and correlations only in large draws; the tests merely use the generators.",
  ["tslearn/generators/generators.py"], [("walks", "tslearn/generators/generators.py:random_walks"), ("blobs", "tslearn/generators/generators.py:random_walk_blobs")],
  "return values, state of the random generators", "TLC generates the histories (WalkGen) and judges them against the state machine of sources (Walk); moments of draws of 600 to 1200 numbers within six standard deviations.")

P("W01", "Multi-layer perceptrons are scikit-learn's networks on the flattened series",
  "After any history of fit, partial_fit (warm start, sample weights, invalid data) and replaced weights, weights, predict and predict_proba equal those of scikit-learn's perceptron given the series flattened time stamp by time stamp, hence the forward pass through the weights. Series of another length or dimension, missing values and labels of the wrong number are refused with a ValueError, calls before training with NotFittedError; refused calls of partial_fit change nothing, inputs are not modified.",
  ["histories", "inputs", "configurations"], "all histories of training and calls, architectures, shapes (also with equal numbers of values), targets and containers",
  "Wrong orders of flattening, stale shapes and lost warm starts keep all shapes and pass the tests, which fit each network once.",
  ["tslearn/neural_network/neural_network.py"], [("training", "tslearn/neural_network/neural_network.py:TimeSeriesMLPClassifier.partial_fit"), ("shapes", "tslearn/utils/utils.py:check_dims")],
  "return values, weights, exceptions", "TLC generates the histories (MlpGen) and computes the forward pass for integer weights; trained weights are compared with scikit-learn's. After a failed fit the state is unspecified until the next fit.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in T:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    na = dict(NA)
    checks = []
    for p, note, tech in T:
        if p["id"] in PROPS:
            c = f"/opt/venv/bin/python harness/check.py {p['id']}"
            checks.append(dict(property=p["id"], quick_cmd=c, thorough_cmd=c + " --tier thorough", technique=tech, level="model_checking", level_note=note))
        elif p["id"] not in na:
            na[p["id"]] = "check not built yet"
    man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
               notes="TLA+ specification in spec/, drivers in harness/; see DESIGN.md")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


NA = {}
if __name__ == "__main__":
    main()
