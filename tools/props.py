# (id, title, statement, quantifier.over, quantifier.text, why_tests_cant, files, mechanism, observe_at)
PROPS = [
 ('C01', 'Traversing a region visits exactly its member points, row-major, every time',
  'A traversal of any region, cluster, scaled region, partition, mask or error region yields every member point exactly once, in row-major order, with the value or series stored for that point. This holds whatever happened to the object before: complete or abandoned traversals, functions applied to it (also ones that failed midway), queries, traversals of other clusters of the same partition, or of regions derived from it.',
  'histories inputs', 'All histories of traversals/queries up to a depth on every kind of region, all interleavings of the traversals of the clusters of one partition, all shapes and memberships in a bound.',
  'Tests iterate fresh objects once; the iterators keep their cursor on the region, on the decorated region and on the partition, so the defect space is histories.',
  'spta/region/base.py spta/region/spatial.py spta/region/temporal.py spta/region/scaling.py spta/region/mask.py spta/region/partition.py spta/model/error.py',
  [('shared cursor restarted by __iter__', 'spta/region/base.py: BaseRegion.__iter__/__next__'),
   ('cluster iteration skips non-members', 'spta/region/spatial.py, temporal.py: __next__'),
   ('iterator handed on by the scaled decorator', 'spta/region/scaling.py: SpatioTemporalScaled.__iter__')],
  ['(point, value) pairs produced by a for loop', 'results of applying a function to the region']),
 ('C02', 'Derived regions hold exactly the selected data and leave the original untouched',
  'Taking a sub-rectangle, a time interval or both, repeating a value, series or point, applying a function, serialising, and any chain of these, gives a region whose dimensions and values are those of the same operations on the plain array, keeping scaling data and cluster membership. No derivation changes the region it was taken from or any earlier ancestor.',
  'programs inputs', 'All chains of derivations up to a depth over the full alphabet of rectangles and intervals, on plain, scaled and clustered regions with ordinary, missing, constant and integer data.',
  'Tests cover one derivation at a time on fixed data; the decorators must compose in every order.',
  'spta/region/base.py spta/region/spatial.py spta/region/temporal.py spta/region/scaling.py spta/region/function.py',
  [('factory methods new_spatial_region/new_spatio_temporal_region overridden by decorators', 'spta/region/spatial.py, temporal.py, scaling.py'),
   ('function application region by region', 'spta/region/function.py')],
  ['shape, as_numpy, series_at/value_at, iteration of derived region and ancestors']),
 ('C03', 'Scaling maps every series onto [0, 1] and descaling restores the original',
  'Scaling a region transforms every non-constant series so that its minimum is 0 and its maximum is 1, and removing the scaling restores the original values of every point. The restoration also holds for any sub-rectangle, interval, cluster or repetition taken from the scaled region, in any order.',
  'programs inputs', 'All series over a small value alphabet, all chains of derivations up to a depth between scaling and descaling.',
  'Tests scale two fixed regions and descale a single subset.',
  'spta/region/scaling.py spta/region/temporal.py spta/util/arrays.py',
  [('minimum/maximum kept per point and subset together with the data', 'spta/region/scaling.py: SpatioTemporalScaled')],
  ['series of scaled and descaled regions', 'has_scaling']),
 ('C04', 'A cluster never reads or writes points of other clusters, and clusters recompose',
  'The clusters of a partition are disjoint, cover the region and report their true sizes; reading a point outside a cluster is refused. Applying any function cluster by cluster, in any order, and merging the results equals applying it to the whole region.',
  'inputs programs', 'All assignments of the points of small regions to clusters, all orders of processing and merging.',
  'Tests use one fixed partition of a 2x3 region.',
  'spta/region/spatial.py spta/region/temporal.py spta/region/partition.py spta/region/function.py',
  [('membership test before access', 'spta/region/spatial.py: SpatialCluster.value_at; temporal.py: SpatioTemporalCluster.series_at'),
   ('merge by membership', 'spta/region/partition.py: merge_clusters_2d')],
  ['value_at/series_at', 'cluster_len', 'merged region']),
 ('C05', 'Partition queries agree with the membership of each point',
  'Membership look-ups by point or by index, the clusters and medoids met by a rectangle, the merge of per-cluster values or of one representative value per cluster, and the clusters built with their medoids all agree with the cluster assigned to each point. The answers stay the same after cloning and after saving and loading the partition, and do not depend on the order in which clusters are given.',
  'inputs histories', 'All partitions of small regions, all representatives, rectangles, look-up lists and cluster orders.',
  'Tests use one partition, sorted clusters and a single rectangle.',
  'spta/region/partition.py',
  [('rectangle and membership queries', 'spta/region/partition.py: PartitionRegionCrisp')],
  ['query results', 'merged regions', 'reloaded partition']),
 ('C06', 'A regular partition is the balanced grid of k blocks',
  'For every region size and every k that fits, the regular partition consists of exactly k non-empty rectangular blocks numbered row-major, arranged by the most balanced pair of divisors of k, with equal blocks except possibly in the last row and column. Sizes that cannot hold such a grid are refused instead of yielding fewer clusters.',
  'inputs', 'All widths, heights and k in a box, all divisor pairs up to a bound.',
  'Tests check a handful of k values on two sizes.',
  'spta/region/partition.py spta/util/maths.py spta/clustering/regular.py',
  [('divisor search', 'spta/util/maths.py: two_balanced_divisors_order_x_y'),
   ('block assignment', 'spta/region/partition.py: with_regular_partition')],
  ['membership array', 'exceptions']),
 ('C07', 'Region coordinates and stored copies identify the same data as the dataset',
  'A region built from its description holds exactly that rectangle and interval of the dataset, scaled or not, and converting between indices, relative points and absolute points is the row-major bijection onto that rectangle. Regions that are saved or serialised reload to the same data.',
  'inputs configurations', 'All rectangles of a small dataset, all points, rectangles at large offsets, scaled and unscaled.',
  'Tests convert one or two points of one rectangle.',
  'spta/region/metadata.py spta/region/__init__.py spta/region/temporal.py spta/region/scaling.py spta/kmedoids/__init__.py',
  [('index/point arithmetic', 'spta/region/metadata.py: index_to_absolute_point'),
   ('slice of dataset', 'spta/region/metadata.py: create_instance')],
  ['values of the created region', 'returned points', 'reloaded arrays']),
 ('C08', 'Different configurations never share a name or a storage location',
  'Two clustering, model, region, distance or solver configurations are equal and hash alike exactly when their parameters are equal; different ones never have the same text representation or storage path, and the representation of a clustering recovers it. A suite yields exactly the product of its parameters, every time it is traversed.',
  'configurations', 'All pairs of configurations of a parameter box, all suites of up to 3x3 values.',
  'Tests compare a few fixed strings; collisions are a property of pairs.',
  'spta/clustering/kmedoids.py spta/clustering/regular.py spta/clustering/factory.py spta/clustering/suite.py spta/region/metadata.py spta/model/knn.py spta/model/mean.py spta/arima/__init__.py spta/distance/__init__.py spta/solver/metadata.py experiments/metadata/clustering.py',
  [('representation of every parameter', '__repr__ of each metadata class'),
   ('paths built from representations', 'output_dir/pickle_filename')],
  ['repr, ==, hash, path strings', 'list of suite elements']),
 ('C09', 'A fuzzy mask holds exactly the points within the threshold of their best',
  'A point belongs to the fuzzy mask of a cluster exactly when its membership to that cluster is within the threshold of its best membership. The points traversed, their count and clones of the mask agree with this rule after any history of traversals.',
  'inputs histories', 'All membership grids in a bound, all thresholds of the grid, all clusters, repeated/abandoned/interleaved traversals.',
  'Tests use one membership matrix and two thresholds.',
  'spta/region/mask.py', [('threshold rule', 'spta/region/mask.py: MaskRegionFuzzy.is_member')],
  ['is_member', 'iteration', 'cluster_len']),
 ('C10', 'Distances are the true pairwise distances and are looked up for the right pair',
  'The distance of two series is their DTW (or RMSE) distance, the distance matrix of a region holds the distance of every pair in index order, and every row, cluster sub-row or point look-up returns the entries of the points requested. A stored matrix of the wrong dimensions is refused, in every order of loading, computing and looking up.',
  'inputs histories', 'All pairs of short series over a value alphabet, all small shapes, all histories of load/compute/look-up.',
  'Tests evaluate one matrix for one region.',
  'spta/distance/__init__.py spta/distance/dtw.py spta/distance/rmse.py',
  [('matrix computation and look-up', 'spta/distance/__init__.py, dtw.py')],
  ['measure', 'compute_distance_matrix', 'distances_to_point', 'exceptions']),
 ('C11', 'Parallel pairwise operations equal the serial ones under every schedule',
  'The matrix of a pairwise operation computed with parallel workers, in particular the parallel DTW distance matrix, equals the one computed serially, for every number of workers, chunk size, assignment of chunks to workers and interleaving of their steps. No worker deadlocks, failures of the operation are reported, the region is left unchanged, and earlier operations in the process have no influence.',
  'schedules configurations', 'All schedules of up to 3 workers with a bounded number of preemptions at line granularity, on small regions; all chunk sizes and operations of a set.',
  'Tests never run the parallel code; a run samples one schedule.',
  'spta/util/parallel.py spta/distance/dtw_parallel.py',
  [('shared output array guarded by its lock', 'spta/util/parallel.py: inter_points_task_wrapper'), ('index of the pair of points', 'spta/util/parallel.py: inter_points_task_wrapper')],
  ['output matrix']),
 ('C12', 'Spatial weights are applied to a distance matrix exactly once',
  'With a spatially weighted measure, the distance of two points is the series distance plus the weight times the distance of the points, whether the matrix was loaded or computed. This holds after every sequence of loading, computing and clustering over several regions.',
  'histories inputs', 'All histories of load/compute/weight/look-up/cluster operations up to a depth over two regions.',
  'Tests compute one weighted matrix once.',
  'spta/distance/dtw.py spta/distance/__init__.py',
  [('weights added to the matrix in memory', 'spta/distance/dtw.py: DistanceBySpatialDTW')],
  ['distance_matrix', 'distances_to_point']),
 ('C13', 'The centroid of a region or cluster is the member closest to all members',
  'The centroid is always a member whose sum of distances to the members of its own region or cluster is minimal, and the reported distances are those to that centroid. It does not depend on regions processed earlier, on whether the distance matrix was saved, nor on the scaling of other clusters.',
  'inputs histories', 'All small distance matrices, all partitions, histories of several regions through the same entry points.',
  'Tests use one matrix and one region.',
  'spta/region/centroid.py spta/region/temporal.py spta/clustering/regular.py spta/distance/__init__.py',
  [('argmin of row sums restricted to members', 'spta/region/centroid.py')],
  ['centroid point', 'distances to centroid']),
 ('C14', 'k-medoids returns a locally optimal, consistent clustering',
  'The medoids are k different points, every point is labelled with its nearest medoid, the reported costs are those of these labels, and the total is never worse than that of the initial medoids. No single exchange of a medoid for another candidate of the search improves the result by more than the tolerance unless the iteration limit was reached.',
  'inputs configurations', 'All small distance matrices, all ordered initial medoids, both search modes, tolerances and iteration limits.',
  'Tests compare a few fixed runs; local optimality is over all matrices and starts.',
  'spta/kmedoids/kmedoids.py spta/clustering/kmedoids.py',
  [('swap search with cost comparison', 'spta/kmedoids/kmedoids.py: run_kmedoids_from_metadata')],
  ['KmedoidsResult fields', 'partition and medoids of the algorithm']),
 ('C15', 'A clustering depends only on its configuration and data',
  'Repeating a clustering with the same configuration on the same data gives the same partition and medoids, no matter which clusterings, random draws or other operations ran before. Its inputs, the series and the distance matrix, are left unmodified.',
  'histories configurations', 'All histories of other operations up to a depth before the clustering.',
  'Tests run each clustering once per process from fresh state.',
  'spta/kmedoids/kmedoids.py spta/kmedoids/kmedoids_fuzzy.py spta/clustering/factory.py spta/util/maths.py',
  [('seed reset before choosing medoids', 'spta/kmedoids/kmedoids.py: choose_initial_medoids')],
  ['partition, medoids, input arrays']),
 ('C16', 'Fuzzy k-medoids memberships and costs follow their definition',
  'The memberships of every point add up to one and follow from its distances to the final medoids, the reported cost is the one of these memberships, and it is never worse than that of the initial medoids. No single exchange of a medoid improves the result by more than the tolerance unless the iteration limit was reached.',
  'inputs', 'All small positive distance matrices, all ordered initial medoids, several fuzzifiers.',
  'Tests compare one or two runs.',
  'spta/kmedoids/kmedoids_fuzzy.py', [('membership formula and swap search', 'spta/kmedoids/kmedoids_fuzzy.py')],
  ['result fields']),
 ('C17', 'Stored partitions never change the answer of a clustering',
  'A clustering obtained through stored partitions equals the one computed without any storage, for every history of requests with different configurations, regions, measures and storage homes. Deleted files and files cut short by a crash while storing lead to recomputation, not to an error or a wrong partition.',
  'histories crash_points configurations', 'All histories of requests, restarts, deletions and crash cuts up to a depth; every truncation of every stored file.',
  'Tests mock the storage; no test restarts, mixes configurations or crashes.',
  'spta/clustering/kmedoids.py spta/clustering/regular.py spta/clustering/__init__.py spta/region/partition.py',
  [('path per configuration', 'pickle_dir/pickle_filename'), ('tolerant load', 'spta/region/partition.py: try_from_pickle')],
  ['partition and medoids returned', 'files written']),
 ('C19', 'Suite analyses report the costs and elbows of the clusterings they name',
  'The intra-cluster cost of a partition is the sum of squared distances of its points to their medoids, and the elbow of a suite is, for each seed, the k where the costs of that seed have the largest discrete second derivative. The analysis programs store exactly these values for every clustering of the suite.',
  'inputs configurations', 'All cost vectors over a grid for unevenly spaced k and two seeds, all partitions and medoids on small matrices, complete runs of the programs.',
  'Tests use one cost vector with one seed.',
  'spta/clustering/suite.py spta/region/partition.py experiments/clustering/partition_analysis.py experiments/clustering/medoid_distances.py',
  [('second derivative and argmax', 'spta/clustering/suite.py: FindSuiteElbow'), ('cost', 'spta/region/partition.py: intra_cluster_cost')],
  ['elbows', 'cost values', 'csv content']),
 ('C21', 'Models are trained with the series and parameters of their own point only',
  'After a training, the model at every trained point is the one obtained from the series and the parameters of that point alone; points that are not to be trained (outside the cluster, not a representative) or whose training fails hold no model, and failures are counted. Training and test parts split every series exactly, and nothing depends on what the same trainer trained before or changes the data.',
  'histories inputs', 'All histories of trainings with one trainer over regions, clusters, representatives and failing points; all split lengths.',
  'Tests train once on one region; confinement is over all memberships and trainer histories.',
  'spta/model/train.py spta/model/base.py spta/model/mean.py spta/model/knn.py spta/region/function.py',
  [('point-wise training function', 'spta/model/train.py: ModelTrainer'), ('only at representatives', 'spta/model/train.py: TrainAtRepresentatives'),
   ('split', 'spta/model/train.py: SplitTrainingAndTestLast')],
  ['model at each point', 'missing-model count', 'training and test regions']),
 ('C22', 'Forecasters compute their definition and forecast with the model of the point',
  'The k-NN forecast is the mean of the continuations of k windows of the training series nearest to its last window, and the mean-of-past forecast repeats the mean of the last values; series too short for k windows are refused. Over a region, each point is forecast by its own model with the requested length, and points without a model get no forecast.',
  'inputs histories', 'All short series over a small alphabet, all lengths, k and distances; all histories of forecasts with one model region.',
  'Tests use one series per model.',
  'spta/model/knn.py spta/model/mean.py spta/model/base.py',
  [('neighbour search', 'spta/model/knn.py: find_k_nearest_neighbors'), ('forecast per point', 'spta/model/base.py: ModelRegion')],
  ['forecast series']),
 ('C23', 'Forecast errors are the metrics of the forecasts on the unscaled series',
  'Every reported error is the MASE, sMAPE or MSE of the forecast of the named model against the unscaled observations of the point, and every overall error is the root mean square over exactly the points of the region or cluster. The best, worst, local-best and centroid errors of an analysis are those of the models they name, whatever was trained or forecast before with the same analysis.',
  'histories inputs', 'All histories of trainings, forecasts and analyses up to a depth on plain, scaled and clustered regions; all short series against the metric definitions.',
  'Tests evaluate the metric functions on single series; analyses are stateful and combine scaling and clusters.',
  'spta/model/error.py spta/model/forecast.py spta/util/error.py spta/util/arrays.py',
  [('descale before measuring', 'spta/model/error.py: MeasureForecastingError'), ('forecast of one model repeated', 'spta/model/error.py: OverallErrorForEachForecast'),
   ('cached forecasts discarded on training', 'spta/model/forecast.py: train_models')],
  ['error regions', 'overall errors', 'ForecastErrors']),
 ('C24', 'Parallel error analysis equals the serial one under every schedule',
  'The overall error of using the forecast of each point for the whole region, computed with parallel workers, equals the serial computation at every point of the region or cluster, for every number of workers, assignment of points to workers and interleaving. It does not depend on analyses that ran before, nor change the regions.',
  'schedules configurations', 'All schedules of up to 3 workers with a bounded number of preemptions at line granularity, for plain, scaled and clustered regions with missing forecasts and every error type.',
  'Tests never run the parallel analysis; a run samples one schedule.',
  'spta/model/error_parallel.py spta/model/error.py',
  [('shared output array guarded by its lock', 'spta/model/error_parallel.py: error_function_wrapper')],
  ['overall error region']),
 ('C25', 'A solver forecasts each point with the model of its cluster medoid',
  'For every query rectangle, the forecast at each point is that of the model at the medoid of the cluster of that point, in the real values of the point: trained without the test samples for in-sample queries, refitted with the whole series for out-of-sample ones. The error and test series reported for a point are its own, and no query or other solver changes the answers to others.',
  'configurations histories', 'All solver configurations of a box (region, scaling, clustering, test length, error, model), all rectangles and several lengths, all histories of queries of a set.',
  'There are no solver tests; the answer combines region, cluster, scaling and training history.',
  'spta/solver/train.py spta/solver/model.py spta/region/partition.py spta/model/train.py',
  [('models replicated from the medoids', 'spta/solver/train.py: replicate_representative_models'), ('query sub-rectangle and descaling', 'spta/solver/model.py: SolverWithMedoids.predict')],
  ['prediction_forecast_at, prediction_error_at, prediction_test_at']),
 ('C26', 'A stored solver answers as the one that was saved, or fails to load',
  'A loaded solver answers every query as the solver trained with exactly its configuration, whatever other solvers were saved, loaded or deleted in the same storage, and also when its partition has to be computed again. After a save that was interrupted at any point, loading fails or gives a solver with right answers, never a mixture, and saving again repairs it.',
  'histories crash_points configurations', 'All histories of saves of configurations differing in one parameter, with partition deletion; crash at every file operation and at offsets within each file.',
  'There are no storage tests; crash points and name collisions need enumeration.',
  'spta/solver/model.py spta/solver/metadata.py spta/clustering/__init__.py',
  [('file names derived from the configuration', 'spta/solver/metadata.py: trained_model_region_filename, csv_filename'), ('pickles per part', 'spta/solver/model.py: SolverPickler')],
  ['answers of the loaded solver']),
 ('C27', 'Stored and printed prediction results report the query they belong to',
  'The text and CSV of a result give, for every point of the queried rectangle, its position in the dataset, its cluster, its error and its series; the summary gives the number of clusters, the distance to their medoids and the error of that query. Results of different queries or solvers are stored in different files and storing one never alters another.',
  'configurations histories', 'All rectangles and several lengths over a box of solver configurations; all ordered histories of stored queries of a menu.',
  'There are no tests of results.',
  'spta/solver/result.py spta/solver/metadata.py spta/util/fs.py',
  [('offset of the query and of the region', 'spta/solver/result.py: to_domain_coordinates/absolute_coordinates_of'), ('file names', 'spta/solver/metadata.py: csv_filename')],
  ['lines_for_point', 'query-result and query-summary CSV files']),
 ('C28', 'A point is labelled with its best medoid that is still available',
  'For every point and suite of clusterings, the chosen medoid is the first one of minimum penalty (distance to the point, or error of the solver that uses it) among those chosen fewer times than the threshold; the histogram counts exactly the choices made, and an error is raised when none is left. The training and medoid CSV files report, for each of the requested points, the chosen medoid with its position in the dataset and the series of that point, and no point is itself a medoid; requests that differ in number of points, seed, threshold or criterion have files of their own.',
  'histories inputs', 'All histories of penalty vectors up to a depth for all suite shapes and thresholds of a box; all points of regions at several offsets; CSV files of all counts.',
  'Tests check two choices with one region; thresholds are stateful and coordinates mix absolute and relative ones.',
  'spta/classifier/train_input.py spta/clustering/suite.py experiments/clustering/extraction_lstm.py',
  [('global minimum with threshold', 'spta/classifier/train_input.py: MedoidsChoiceStrategy.choose_medoid'), ('offset of the region', 'spta/classifier/train_input.py: get_medoid_penalties, extract_all_medoid_indices_from_suite_result')],
  ['result of choose_medoid', 'histogram', 'random_point, hist and medoid_data CSV files']),
 ('C29', 'Random points are distinct, allowed, repeatable, and any allowed one can occur',
  'Random points drawn to train a classifier or to compare with a cluster are distinct, inside the region and never excluded ones (medoids, members of the cluster); a seed repeats its draw, every allowed set can occur, and asking for too many is an error or falls back to all of them as documented. The histograms of a cluster use exactly the distances of its members, and of those random points, to its centroid.',
  'inputs outcomes', 'All ranges, exclusion sets and counts of a box, each drawn until every allowed outcome occurred; all partitions of small regions.',
  'A test samples one draw.',
  'spta/util/maths.py spta/distance/variance.py spta/classifier/train_input.py',
  [('sampling without replacement among the allowed values', 'spta/util/maths.py: random_integers_with_blacklist'), ('members excluded', 'spta/distance/variance.py: point_indices')],
  ['drawn points', 'distances_to_point, statistics, plotted counts']),
 ('C30', 'Sliding windows are exactly the consecutive slices, with their label and offset',
  'For every series, window length and stride, the windows are all the consecutive slices in order, and own their values. For a table of labelled series, every window of every row appears exactly once with the label of its row and its offset, rows in order, whatever labels repeat.',
  'inputs', 'All lengths, windows, strides and label sequences of a box, several kinds of values and table layouts.',
  'Tests check a few tables.',
  'spta/util/arrays.py spta/classifier/sliding_window.py',
  [('slices', 'spta/util/arrays.py: sliding_window'), ('one row at a time', 'spta/classifier/sliding_window.py: extract_windows_from_one_tuple')],
  ['returned windows and table']),
 ('C31', 'A classifier solver forecasts each point with the medoid model of its label',
  'For every query and labels given by the classifier (asked about the last values of each queried point), each point gets the forecast of the model stored for that medoid of that clustering, in the real values of the point, with the error against its own test series. The text and CSV of the result report the points, labels, errors and series of that query, in the output directory of the query; earlier queries, whichever region they classified, do not change later answers nor these the earlier results.',
  'inputs histories', 'All label assignments to rectangles of a box, over solver configurations; all histories of 2-3 queries of a menu on one solver.',
  'There are no tests of this solver; it depends on stored solvers, cached state and a network.',
  'spta/classifier/model.py spta/classifier/dnn.py spta/solver/result.py spta/solver/metadata.py',
  [('model of the medoid of the label', 'spta/classifier/model.py: retrieve_model_for_solver'), ('cached classifier and region', 'spta/classifier/model.py: predict/prepare'), ('label of the network output', 'spta/classifier/dnn.py: label_for_series')],
  ['SolverFromClassifier.predict: forecasts, errors, labels', 'query-result and query-summary CSV files']),
 ('C32', 'A cached interval of the dataset equals the interval of the full dataset',
  'Requesting an interval of years at a sampling rate always returns exactly that slice (or its daily means) of the full dataset, whichever intervals were requested before. An interrupted write of the cached interval never makes a later request return wrong data or fail.',
  'histories crash_points', 'All histories of requests, deletions, restarts and crashes up to a depth; every prefix of the cached file.',
  'There is no test of the cache; crash points cannot be sampled by hand.',
  'spta/dataset/temp_brazil.py', [('cache file checked before the full dataset', 'spta/dataset/temp_brazil.py: retrieve_dataset_interval')],
  ['returned array', 'files in the raw directory']),
 ('C33', 'Years map to contiguous sample ranges and days to their exact means',
  'The samples of consecutive years are contiguous, non-overlapping and respect leap years for every sampling rate. Averaging the samples of each day gives, for every point, the mean of exactly the samples of that day.',
  'inputs', 'All year triples around leap-year exceptions, all day/point shapes in a bound.',
  'Tests check two intervals.',
  'spta/dataset/temp_brazil.py spta/util/maths.py', [('calendar arithmetic', 'spta/dataset/temp_brazil.py: convert_year_interval_to_series_interval')],
  ['interval bounds', 'averaged array']),
 ('C34', 'DTW barycenter averaging never moves away from the series it averages',
  'The squared DTW used is the minimum over all warping paths whatever was computed before; averaging starts from a series of minimum total distance, each update is the mean over an optimal alignment with every series, and the total never increases from one iteration to the next. The series are not modified.',
  'inputs histories', 'All pairs of short series and all small sets of series over an alphabet, up to 4 iterations.',
  'There are no tests of it.',
  'spta/dba/dba.py', [('cost recursion and back-tracking', 'spta/dba/dba.py: squared_DTW, DBA_update')],
  ['performDBA, approximate_medoid_index, squared_DTW']),
 ('C36', 'An ARIMA model is the fit of its own series, and refitting keeps its order',
  'The model of each point is the fit of the series of that point with the given order or with the one found for that series; refitting keeps the order of each point and depends only on the new series. Where fitting fails there is no model, its forecasts and AIC are missing, it is counted as missing and never fitted again; the orders and AIC reported are those of the models.',
  'histories faults', 'All histories of training and refittings over data sets, all sets of failing points, both kinds of fitting errors, all small clusters.',
  'Tests fit single points and never inject failures.',
  'spta/arima/train.py spta/arima/model.py spta/arima/__init__.py spta/model/train.py',
  [('order extracted from the fitted model', 'spta/arima/train.py: TrainerRefitArima'), ('failures mapped to no model', 'spta/arima/train.py: training_function')],
  ['models, forecasts, aic_region, pdq_region, missing_count']),
 ('C37', 'The solver programs answer each request with the solver that was asked for',
  'Training and predicting from the command line (automatic ARIMA, mean of the past, k-NN; at medoids or at each point) print and save, for every point of the requested rectangle and no other, the series and the error that the models of the requested region, clustering, seed, k, test length and error type give in real units; omitted options take the documented defaults; a prediction that was not trained fails and leaves the storage as it was. No request changes the answer of another.',
  'inputs histories', 'All regions, clusterings, test lengths, error types, rectangles and horizons of a box; all pairs of a menu of training requests followed by every prediction.',
  'There are no tests of any program.',
  'experiments/auto_arima/solver.py experiments/auto_arima/solver_each.py experiments/baseline/solver_mean_past.py experiments/baseline/solver_knn_medoids.py experiments/baseline/solver_knn_each.py spta/solver/model.py spta/solver/result.py',
  [('arguments to metadata', 'experiments/auto_arima/solver.py: metadata_from_args'), ('results of models at each point', 'experiments/auto_arima/solver_each.py: process_request')],
  ['printed lines', 'files under outputs/ and pickle/']),
 ('C38', 'The error analysis programs report the errors of the models of each cluster',
  'For every clustering of the requested suite, the programs write one row per cluster and ARIMA order (or per point, or per pair of medoids) with the members, failed models, orders and errors that follow from fitting the series of the dataset without its test samples; where no model can be fitted it is counted as failed; the stored distance matrix is the DTW of all pairs of points. The number of workers and earlier requests do not change any answer.',
  'inputs histories faults', 'All regions, suites, error types, sets of failing points and numbers of workers of a box; all pairs of a menu of requests.',
  'There are no tests of any program.',
  'experiments/arima/training_error_analysis.py experiments/auto_arima/training_error_analysis.py experiments/auto_arima/distance_errors.py experiments/auto_arima/error_between_medoids.py experiments/arima/forecast.py experiments/region/distance.py spta/model/forecast.py',
  [('errors per cluster', 'spta/model/forecast.py: analyze_errors'), ('rows of the CSV', 'experiments/auto_arima/distance_errors.py')],
  ['rows of the CSV files', 'printed lines', 'the stored distance matrix']),
 ('C39', 'The silhouette analysis finds the best clustering of the suite',
  'For every region, suite of k and seeds, mode and initial medoids, the analysis answers a clustering with the highest average silhouette of the suite, computed from the distances of that region, and makes one figure for each clustering, named after it, with its clusters and the silhouette of each of their points. Stored clusterings, earlier analyses of other regions and missing distance files do not change the answer.',
  'inputs histories', 'All small suites over small regions; all histories of 3-4 commands over two regions.',
  'There are no tests of it.',
  'spta/clustering/silhouette.py spta/kmedoids/silhouette.py spta/util/plot.py experiments/clustering/silhouette.py',
  [('best of the suite', 'spta/clustering/silhouette.py: perform_analysis'), ('distance measure of the metadata', 'spta/kmedoids/silhouette.py: do_silhouette_analysis'), ('silhouette figure', 'spta/util/plot.py: plot_clustering_silhouette')],
  ['answers of both analyses', 'saved and shown figures', 'stored region and distances']),
 ('C40', 'Every figure shows the data it is about and has its own file',
  'The figure of a partition shows each cluster in its own colour, a visible mark at each medoid and the rectangle around exactly the cells of the region; the figure of a query shows the partition of that solver and that rectangle, titled with absolute coordinates, in a file of its own. The figures of the analysis programs show the distance and error of every member of each cluster against its medoid, and failing models do not stop the programs; distance maps and series are the stored ones.',
  'inputs faults', 'All partitions, rectangles and marks of small regions, all queries of several solvers, all figures of the programs over regions, errors and failing models.',
  'There are no tests of figures.',
  'spta/util/plot.py spta/solver/model.py spta/model/forecast.py experiments/auto_arima/distance_errors.py experiments/region/distance.py',
  [('partition with rectangle and marks', 'spta/util/plot.py: plot_partition'), ('figure of a query', 'spta/solver/model.py: plot_regions'), ('distances against errors', 'spta/model/forecast.py: plot_distances_vs_errors')],
  ['drawn elements of each figure', 'names of saved figures']),
 ('C41', 'The programs over clustering suites report the analysis of the requested suite',
  'For every region and suite of clusterings, the partition analysis writes, for each clustering of the suite in its order, the total cost and the absolute positions of the medoids that the clustering of that region has (with one silhouette or variance figure for each if requested), the elbow of each seed is that of the costs of that seed ordered by k, the distances between the medoids of each clustering are those of their series, and the training data of a classifier comes from the medoids of the stored analysis of that suite; it fails if there is none. No request changes the answer of another.',
  'inputs histories', 'All regions and suites of a box with all options; all ordered pairs (thorough: triples) of a menu of requests over the same storage.',
  'There are no tests of any program.',
  'experiments/clustering/partition_analysis.py experiments/clustering/find_elbows.py experiments/clustering/medoid_distances.py experiments/clustering/extraction_lstm.py experiments/region/centroid.py spta/clustering/suite.py spta/distance/variance.py',
  [('rows of the suite', 'experiments/clustering/partition_analysis.py: analyze_suite'), ('suite of the arguments', 'experiments/metadata/clustering.py: get_suite'), ('result of the suite', 'spta/clustering/suite.py: retrieve_suite_result_csv')],
  ['CSV files', 'printed lines', 'figures']),
 ('C42', 'Density clustering groups exactly the density-connected points',
  'For every set of distances, the points with at least five points (itself included) within 0.7 are grouped with all such points reachable through them, different groups have different labels from 1, the other points within 0.7 of a grouped point join one of these groups, and the rest are in group 0. The distances are those of the clustered region (calculated if needed, not modified), and stored partitions do not change the result.',
  'inputs histories', 'All neighbour graphs of 6 points, all placements of up to 11 points over a few levels, all histories of stored partitions of two regions.',
  'There are no tests of it.',
  'spta/clustering/dbscan.py',
  [('labels of the groups', 'spta/clustering/dbscan.py: partition_impl')],
  ['labels of the partition']),
 ('C43', 'Synthetic classifier data repeats for a seed and follows its configuration',
  'The synthetic entries have k, clustering seed and cluster index of the given configuration (every combination can occur), one of the given number of medoids within the region, and a line with the slope of that entry, plus noise. The same random seed gives the same entries and the same CSV, whatever was generated before; different seeds differ. The synthetic profiles are the base function delayed within its padding, plus noise.',
  'inputs histories', 'All configurations of a box over many seeds; all histories of 3-4 calls and disturbances of the random state.',
  'There are no tests of it.',
  'spta/classifier/synthetic.py spta/dataset/synthetic_temporal.py',
  [('random state', 'spta/classifier/synthetic.py: generate_synthetic_series'), ('delayed profiles', 'spta/dataset/synthetic_temporal.py: delayed_function_with_noise')],
  ['generated entries', 'CSV files', 'generated series']),
 ('C44', 'Distance histograms show the distances of the members and the points outside',
  'For every distance matrix, partition and point of interest, the histogram of a cluster (or of the whole region) has exactly the distances of its members to that point, its statistics are those of these distances (the minimum without the point itself), and the points outside that are added are counted and compared with the largest distance of the cluster. The figure of all the clusters draws each cluster against its own centroid, at its place in a regular partition, all with the same scale that leaves no distance out, in a file of its own for each clustering and number of points outside.',
  'inputs', 'All distance matrices, partitions, points of interest, centroids, bins and options of figures of a box.',
  'There are no tests of it.',
  'spta/distance/variance.py',
  [('statistics', 'spta/distance/variance.py: DistanceHistogram.statistics'), ('points outside', 'spta/distance/variance.py: DistanceHistogramWithRandomPointsOtherClusters'), ('figure of the clusters', 'spta/distance/variance.py: DistanceHistogramClusters.plot')],
  ['distances and statistics', 'bars, scale and position of each histogram', 'names of saved figures']),
 ('C45', 'The classifier solver program answers with the model of each label',
  'For every request (region, clustering experiment, classifier, rectangle, region to classify, error, number of samples), each point of the rectangle gets the label that the requested classifier gives to the last 15 values of that point in the requested region, and the forecast, in the scale of the data, and the error of the model that was trained for the medoid of that label with that error and number of samples; printed lines and stored CSV agree, and results of different suites, regions, errors, numbers of samples or rectangles do not replace each other. It fails if a needed solver was not trained. No request changes the answer of another.',
  'inputs histories', 'All rectangles of small regions x configurations x classifiers x regions to classify; all ordered pairs (thorough: triples) of a menu of requests over the same storage; all missing solvers and malformed arguments of a box.',
  'There are no tests of any program, and the networks cannot be loaded by the tests.',
  'experiments/classifier/solver_dnn.py spta/classifier/model.py experiments/metadata/classifier.py',
  [('request of the arguments', 'experiments/classifier/solver_dnn.py: metadata_from_args'), ('model of each label', 'spta/classifier/model.py: SolverFromClassifier.predict')],
  ['printed lines', 'CSV files', 'refusals']),
 ('C46', 'Extremes, magnitudes and point lists of arrays and regions are the true ones',
  'For every array, and every region or cluster of it, the minimum (maximum) is the least (greatest) defined value of its members, found at the first of them in row-major order, whatever was traversed or asked before; sums and means of squares follow their definition (undefined values do not weigh in the means); the points of a region are listed once in row-major order, the distances to a point are the euclidean ones, and a repeated value or series is the same at each point. Nothing is modified.',
  'inputs histories', 'All arrays of a box of shapes over small alphabets with ties, undefined values and infinities; all clusters of all small regions; all shapes up to 9x9.',
  'Tests use a few arrays without ties or undefined values.',
  'spta/util/arrays.py spta/region/spatial.py',
  [('first extreme', 'spta/util/arrays.py: minimum_value_and_index'), ('extreme of the members', 'spta/region/spatial.py: SpatialRegion.find_minimum'), ('distances between points', 'spta/util/arrays.py: distances_to_point_in_2d_region')],
  ['extreme values and places', 'magnitudes', 'lists of points and series']),
 ('C47', 'Each predefined request resolves to what its name says',
  'Every region, suite, model and experiment that the programs offer is accepted by them and resolves to exactly the region (name, place, years, samples per day and scaling of its identifier), clusterings and parameters that its name says; regions of the same name are at the same place; a suite has each combination of its values once, and each of its clusterings is found by its name; the orders of an ARIMA suite are the product of its p, d and q in this order; the known centroid of a region, or else the calculated one, is used. No request, and no change to a previous answer, changes a later answer; unknown names are refused.',
  'inputs histories', 'All requests that 18 programs offer (all regions x experiments); all ordered pairs of requests to each table; all small lists of p, d and q; all sets of known centroids x histories of requests.',
  'There are no tests of the tables of predefined requests nor of any program.',
  'experiments/metadata/region.py experiments/metadata/clustering.py experiments/metadata/arima.py experiments/metadata/arima_clustering.py experiments/metadata/centroid.py experiments/metadata/classifier.py spta/arima/__init__.py',
  [('suite of a type', 'experiments/metadata/clustering.py: get_suite'), ('orders', 'experiments/metadata/arima.py: arima_suite_by_name'), ('known centroids', 'experiments/metadata/centroid.py: centroid_by_region_and_distance')],
  ['resolved regions, suites and parameters', 'refusals']),
]

NOT_APPLICABLE = {}

NOTES = ('All checks drive the real code of /repo (no hooks, no model extracted by hand): mc/core.py enumerates '
         'cases exhaustively within stated bounds, in 8 processes, and compares every observation with a '
         'reference model. check.sh <id> thorough explores deeper; --replay <file> reproduces a violation.')
