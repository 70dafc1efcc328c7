#!/usr/bin/env python3
"""Source of known_findings.json (looks up the hashes of the fix commits by subject):  python3 tools/findings.py"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOG = {}
for line in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    LOG[s] = h
FIXED = [
    ("E04", "fix: LCSS loses matches and loops forever when it leaves the constraint mask", "lcss_path lost matches and did not terminate when the retrieval left the constraint mask"),
    ("E03", "fix: cdist_frechet ignores its global constraint", "cdist_frechet ignored its global constraint"),
    ("E01", "fix: PyTorch accumulated matrices overwrite the caller's distance matrix", "dtw_path_from_metric(precomputed tensor) wrote infinities into the caller's matrix"),
    ("E10", "fix: cdist_soft_dtw_normalized with n_jobs rejects datasets of different lengths", "cdist_soft_dtw_normalized with n_jobs raised for datasets of different lengths"),
    ("E07", "fix: SoftDTW ignores the backend of the distance object it is given", "SoftDTW(SquaredEuclidean(tensor, tensor)) raised AttributeError"),
    ("E08", "fix: gradients of constrained soft-DTW are NaN with the PyTorch backend", "soft_dtw(tensors, global_constraint).backward() gave NaN gradients"),
    ("E11", "fix: sigma_gak with the PyTorch backend takes the lower middle value as the median", "sigma_gak of tensors differed from the NumPy result for an even number of pairs"),
    ("E11", "fix: PyTorch LB envelopes and subsequence costs are computed in single precision", "lb_envelope / subsequence_cost_matrix of float64 tensors were rounded to float32"),
    ("E01", "fix: PyTorch point distances of long series lose precision away from the origin", "dtw of tensors longer than 25 far from the origin lost half of its digits"),
    ("E01", "fix: PyTorch pairwise distances of a callable metric are rounded to single precision", "dtw_path_from_metric(callable) of float64 tensors was rounded to float32"),
    ("E07", "fix: SquaredEuclidean of long PyTorch series loses precision away from the origin", "SquaredEuclidean(compute_with_backend) of tensors longer than 25 lost half of its digits"),
    ("D02", "fix: to_pyflux_dataset uses the raw input instead of the formatted dataset", "to_pyflux_dataset of 2-d, list, data frame or padded input raised or kept the padding"),
    ("D01", "fix: PyTorch arrays made from float64 input share its memory", "to_time_series of a float64 tensor (or array, be='pytorch') was a view of the input"),
    ("D03", "fix: UCR/UEA text files with a single series cannot be parsed", "a dataset with one training or test series could not be loaded"),
    ("D03", "fix: UCR/UEA cache is lost or damaged by failed downloads, interruptions and odd names", "load_dataset deleted the cached copy before downloading, raised on network errors, left truncated copies after a crash, and removed directories outside the cache for names such as '..'"),
    ("T01", "fix: TimeSeriesScalerMeanVariance inflates the rounding errors of constant series", "constant series whose mean is rounded (e.g. 0.1 three times) were scaled to values such as -1 instead of mu"),
    ("T02", "fix: linear imputation raises when a feature has no observed value", "TimeSeriesImputer(method='linear') raised for a series with a feature without observed value"),
    ("T03", "fix: 1d-SAX scales its input twice", "OneD_SymbolicAggregateApproximation(scale=True) standardised its input twice before computing mean symbols"),
    ("T03", "fix: 1d-SAX distance pivots slopes half a timestamp after the segment centre", "distance_1d_sax was not the distance of the reconstructions"),
    ("T03", "fix: 1d-SAX reconstruction leaves trailing timestamps uninitialised", "inverse_transform returned uninitialised memory after the last full segment"),
    ("C01", "fix: DBA ignores global_constraint given by name", "metric_params={'global_constraint': 'sakoe_chiba'} had no effect on the alignments of DBA"),
    ("C01", "fix: DBA fails on an initial barycenter padded with NaN or given as a list", "init_barycenter with trailing NaN rows, or a list, raised or gave NaN"),
    ("C01", "fix: dtw_barycenter_averaging returns None when max_iter is 0", "max_iter=0 returned None instead of the starting point"),
    ("C01", "fix: dtw_barycenter_averaging_subgradient ignores the weights", "weights had no effect on the subgradient steps"),
    ("C01", "fix: DBA cannot initialise a barycenter from series of length 1", "series of length 1 with barycenter_size > 1 raised"),
    ("C01", "fix: softdtw_barycenter fails on PyTorch tensors", "softdtw_barycenter(tensor) raised"),
    ("C02", "fix: TimeSeriesKMeans ignores max_iter_barycenter for DTW", "max_iter_barycenter had no effect with metric='dtw'"),
    ("C02", "fix: TimeSeriesKMeans inertia is that of the centroids before the last update", "inertia_ and the choice among n_init attempts used the centroids before the last update"),
    ("C03", "fix: KernelKMeans changes the user's kernel_params and keeps sigma from an earlier fit", "fit wrote sigma into kernel_params; a second fit kept the sigma of the first"),
    ("C04", "fix: KShape.predict divides by the norms of the training series", "predict used the norms of the training series and failed for more test than training series"),
    ("C04", "fix: KShape uses the centroid norms of the last attempt instead of the best one", "with n_init > 1 labels and predictions used the norms of the last attempt"),
    ("C04", "fix: KShape truncates centroids to integers when init is an integer array", "an integer init array truncated all centroids"),
    ("C04", "fix: normalised cross-correlation of series of length 1 contains spurious shifts", "normalized_cc of series of length 1 had extra entries"),
    ("C04", "fix: cdist_normalized_cc doubles entries and leaves the diagonal empty with self_similarity", "with self_similarity=True some entries were doubled (in-place sum with the own transpose) and the diagonal was 0"),
    ("C04", "fix: KShape orients a centroid dimension by the other dimensions", "a dimension of a centroid could be the negative of all its members when another dimension has the opposite sign"),
    ("C06", "fix: silhouette_score of a callable ignores metric_params and rejects keywords, padding and tensors", "callable metrics received no metric_params, keywords raised, tensors raised"),
    ("N01", "fix: neighbor estimators keep metric='precomputed' after a failing call and revert a changed metric on refit", "after a failing call get_params() gave metric='precomputed'; set_params(metric=...) followed by fit restored the old metric"),
    ("N01", "fix: kneighbors() without query returns wrong neighbors or fails, and kneighbors rejects lists of time series", "kneighbors() dropped an arbitrary neighbor instead of the query itself, or failed"),
    ("N01", "fix: neighbor estimators ignore or crash on metric='sax', and re-fit SAX on the queries", "metric='sax' failed for search and regression; predictions depended on the batch of queries"),
    ("B01", "fix: SAX transformer of the nearest-neighbor classifier is missing until the first prediction", "a classifier fitted with metric='sax' and saved before the first prediction failed after loading"),
    ("N01", "fix: nearest-neighbor classifier cannot predict with metric='cityblock'", "predict raised on the number of features"),
    ("N01", "fix: kneighbors of the nearest-neighbor classifier and regressor accept queries of another dimension", "queries of another dimension were compared silently"),
    ("S01", "fix: TimeSeriesSVR ignores epsilon", "epsilon was never passed on; every model used 0.1"),
    ("Y01", "fix: early classifier normalises its confusion matrices by predicted instead of true class", "error rates were divided by the counts of the wrong class whenever classes are confused unevenly"),
    ("Y01", "fix: early classifier predicts at once from NaN costs when all clusters share the beginning of a series", "identical beginnings of all cluster centres gave NaN costs and an immediate decision"),
    ("M01", "fix: MatrixProfile ignores scale and rejects integers with the stumpy implementations", "scale=False had no effect with implementation='stump'; integer series raised TypeError"),
    ("M01", "fix: MatrixProfile of a series shorter than the longest one is all NaN", "NaN padding turned the whole profile into NaN (numpy)"),
    ("F01", "fix: VARIMA forecasts are wrong for differentiation orders above 1", "forecasts with d >= 2 were undifferenced with the wrong starting values"),
    ("F01", "fix: VARIMA mixes up the coefficients of multivariate series", "coefficients of several dimensions were read back in another layout than fitted"),
    ("F01", "fix: VARIMA applies moving-average coefficients in reverse order", "with q >= 2 the oldest error was multiplied by the first coefficient"),
    ("F01", "fix: VARIMA.predict skips too few timestamps of the shorter series", "forecasts of shorter series of a variable-length dataset used padding"),
    ("B01", "fix: models that cannot be saved destroy or leave behind files", "a failing save truncated the existing file or left an invalid one"),
    ("B01", "fix: HDF5 serialization fails on, or changes, missing values and nested parameters", "None, NaN and nested dict/list parameters failed or came back changed"),
    ("B01", "fix: models with NumPy scalars as parameters cannot be saved to JSON", "TypeError for np.float64/np.int64/np.bool_ parameters"),
    ("B01", "fix: nearest-neighbor regressors cannot be saved", "to_* of a fitted regressor failed"),
    ("B01", "fix: KNeighborsTimeSeries with non-elastic metrics cannot be used after loading", "kneighbors of a loaded model raised"),
    ("B01", "fix: MatrixProfile is not fitted after loading", "transform of a loaded model raised NotFittedError"),
    ("B01", "fix: VARIMA and AutoVARIMA cannot be saved", "to_* raised"),
    ("B01", "fix: HDF5 serialization silently drops callable parameters", "a callable parameter was lost without an error"),
    ("B01", "fix: string labels held in object arrays become bytes in HDF5 files", "predictions of the loaded model were bytes"),
    ("B01", "fix: JSON serialization loses the shape and type of empty arrays", "empty arrays came back as one-dimensional float arrays"),
    ("B01", "fix: multi-output nearest-neighbor classifiers cannot be saved to HDF5", "saving raised TypeError"),
    ("B01", "fix: models with non-ASCII class labels cannot be loaded from HDF5", "loading raised UnicodeDecodeError"),
    ("B01", "fix: LearningShapelets loaded from JSON cannot be saved to JSON again", "saving a loaded model raised TypeError"),
    ("B02", "fix: kneighbors of unfitted nearest-neighbor classifiers and regressors does not raise NotFittedError", "AttributeError"),
    ("B02", "fix: LearningShapelets cannot be fitted again to longer series", "a second fit kept the maximal length of the first: longer series raised ValueError, shorter ones were padded"),
    ("B03", "fix: LearningShapelets accepts series shorter than its default shapelets", "series shorter than a shapelet (default sizes) got the largest distance of the batch instead of an error"),
    ("L01", "fix: LearningShapelets mixes up several multivariate shapelets", "with several shapelets of one length and several dimensions, the distances mixed values of different shapelets and dimensions"),
    ("W01", "fix: warm started multi-layer perceptrons cannot be fitted twice", "with warm_start=True the second fit raised ValueError (number of features)"),
    ("W01", "fix: a failed first partial_fit of multi-layer perceptrons determines the shape of the series", "after a refused first call, partial_fit refused series of any other shape"),
    ("P01", "fix: mase refuses an array of feature weights", "multioutput=np.array([...]) raised ValueError (truth value of an array)"),
    ("P01", "fix: mae, mse and mase accept datasets of different shapes", "datasets of shapes (n, 3, 2) and (n, 2, 3) were compared silently"),
    ("E11", "fix: all over several axes raises with the PyTorch backend", "Backend('pytorch').all(x, axis=(0, 1)) raised TypeError"),
    ("E11", "fix: is_float32 and is_float64 of the PyTorch backend raise TypeError", "Backend('pytorch').is_float32(x) raised TypeError"),
]
FINDINGS = []
for i, s in ((0, "ctw_path([1,2,3],[1,2,2,3,4])"), (1, "ctw_path([1,2,3],[1,5,3,4])")):
    for be in ("numpy", "pytorch"):
        FINDINGS.append(("E12", f"ctw-score-{i}-{be}", f"{s} ({be}) returns the score of the path before the only update: the loop compares the new path with itself and stops (tests/test_metrics.py pins these scores)"))
for i in (0, 1):
    for fn in ("cdist_soft_dtw", "cdist_soft_dtw_normalized"):
        for be in ("numpy", "pytorch", "tensor"):
            FINDINGS.append(("E07", f"gamma0-{fn}-{i}-{be}", f"{fn}(gamma=0) returns DTW instead of its square (input {i}, {be}; tests/test_metrics.py pins this)"))


def main():
    json.dump({"findings": [dict(property=p, sig=s, what=w) for p, s, w in FINDINGS],
               "fixed": [f"fixed: property={p} {LOG[c]} {w}" for p, c, w in FIXED]}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
