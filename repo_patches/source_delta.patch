From 8991409f3d0c6ff9e1d61203aeb6ff15ab6ad94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 01/43] fix: a new iteration over a region always starts from
 its first point

---
 spta/model/error.py    | 7 +++++++
 spta/region/base.py    | 4 +++-
 spta/region/scaling.py | 7 +++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..a984d1e 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -67,6 +67,13 @@ class ErrorRegion(SpatialDecorator):
         # return arrays_util.root_mean_squared(error_list)
         return self.error_combine_func(error_list)
 
+    def __iter__(self):
+        '''
+        The iteration is delegated to the decorated region, so restart that one.
+        '''
+        iter(self.decorated_region)
+        return self
+
     def __next__(self):
         '''
         Use the decorated iteration, which may be more interesting than the default iteration
diff --git a/spta/region/base.py b/spta/region/base.py
index 91c1112..ba5978e 100644
--- a/spta/region/base.py
+++ b/spta/region/base.py
@@ -75,8 +75,10 @@ class BaseRegion(log_util.LoggerMixin):
 
     def __iter__(self):
         '''
-        Used for iterating over points
+        Used for iterating over points. Always starts from the first point, even if a previous
+        iteration was abandoned before reaching the end.
         '''
+        self.point_index = 0
         return self
 
     def __next__(self):
diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..5135e20 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -218,6 +218,13 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
+    def __iter__(self):
+        '''
+        The iteration is delegated to the decorated region, so restart that one.
+        '''
+        iter(self.decorated_region)
+        return self
+
     def __next__(self):
         '''
         Don't use the default iterator here, which comes from SpatialDecorator.
-- 
2.43.0


From 2df6130c661e14165bc20615c4706156973540a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 02/43] fix: region_with_zeroes uses the dimensions of its
 argument

---
 spta/region/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/spatial.py b/spta/region/spatial.py
index f17654a..c93862a 100644
--- a/spta/region/spatial.py
+++ b/spta/region/spatial.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from . import base
-from . import Region, reshape_1d_to_2d
+from . import reshape_1d_to_2d
 
 from spta.util import arrays as arrays_util
 
@@ -206,7 +206,7 @@ class SpatialRegion(DomainRegion):
         Creates a spatial region filled with zeroes, with the dimensions given by the region.
         Notice that indices will start at (0, 0)
         '''
-        (x_len, y_len) = (Region.x2 - Region.x1, Region.y2 - Region.y1)
+        (x_len, y_len) = (region.x2 - region.x1, region.y2 - region.y1)
         zero_array = np.zeros((x_len, y_len))
         return SpatialRegion(zero_array)
 
-- 
2.43.0


From 346991350983ecb80921dedc0de52543a9c1be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 03/43] fix: series_at without a point returns a NaN series
 instead of failing

---
 spta/region/temporal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..159ad10 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -53,7 +53,7 @@ class SpatioTemporalRegion(DomainRegion):
     def series_at(self, point):
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         return self.numpy_dataset[:, point.x, point.y]
 
@@ -360,7 +360,7 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         '''
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         # self.logger.debug('SpatioTemporalCluster {} series_at {}'.format(self.label, point))
         if self.partition.is_member(point, self.cluster_index):
-- 
2.43.0


From 25adb219d8c2d928b1ec5aa8fdb782d5fcee26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 04/43] fix: subset by region and interval honors decorated
 regions (scaling data, clusters)

---
 spta/region/temporal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 159ad10..f04f0c4 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -76,9 +76,8 @@ class SpatioTemporalRegion(DomainRegion):
         region: Region
         ti: TimeInterval
         '''
-        numpy_region_subset = \
-            self.numpy_dataset[ti.t1:ti.t2, region.x1:region.x2, region.y1:region.y2]
-        return self.new_spatio_temporal_region(numpy_region_subset)
+        # reuse both subsets so that decorators (e.g. scaled regions, clusters) can handle them
+        return self.region_subset(region).interval_subset(ti)
 
     def repeat_series(self, series):
         '''
-- 
2.43.0


From 41722c002960e6b6433fda89180860a014c1a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 05/43] fix: repeat_point works for decorated spatio-temporal
 regions

---
 spta/region/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index f04f0c4..76f2fb8 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -236,6 +236,10 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
+    def repeat_point(self, point):
+        # diamond problem! the spatial implementation would try to repeat a single value
+        return SpatioTemporalRegion.repeat_point(self, point)
+
     def has_centroid(self):
         # if a centroid has been set at parent, honor it
         # TODO we should avoid this?
-- 
2.43.0


From c88367e49fe043a0314c4456dc01c19dcd96b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 06/43] fix: descaling a cluster of a scaled region removes the
 scaling

---
 spta/region/temporal.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 76f2fb8..7431698 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -357,6 +357,17 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         subset_cluster.region_metadata = None
         return subset_cluster
 
+    def descale(self):
+        '''
+        Descale the decorated region, and decorate the result as the same cluster.
+        Cannot use new_spatio_temporal_region here, because it would keep the scaling behavior of
+        the decorated region.
+        '''
+        return SpatioTemporalCluster(decorated_region=self.decorated_region.descale(),
+                                     partition=self.partition,
+                                     cluster_index=self.cluster_index,
+                                     region_metadata=self.region_metadata)
+
     def series_at(self, point):
         '''
         Returns the time series at specified point, the point must belong to cluster
-- 
2.43.0


From e98e54d11f939d65d3b149c6124f634ffef8522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 07/43] fix: default cluster_len counts the members of the
 cluster

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7db158a..e946dd8 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -109,7 +109,7 @@ class PartitionRegion(BaseRegion):
         members = 0
         for point in self:
             if self.is_member(point, cluster_index):
-                members += 0
+                members += 1
         return members
 
     def clone(self):
-- 
2.43.0


From 2bf6f65cc9df1c0f4a4f734dddf5f6585b41abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 08/43] fix: merge_clusters_2d accepts the clusters in any
 order

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index e946dd8..9df9900 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -302,7 +302,7 @@ class PartitionRegionCrisp(PartitionRegion):
             assert cluster.y_len == self.y_len
 
         # order clusters by their index
-        sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
+        spatial_clusters = sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
 
         # sanity checks: there are k clusters, and all indices are present
         indices = [
-- 
2.43.0


From 896eaf887aafe8db4943f5f9cfdf9f23e64faae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 09/43] fix: merge_clusters_2d does not truncate values to the
 type of the first cluster

---
 spta/region/partition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 9df9900..76d8528 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -314,8 +314,8 @@ class PartitionRegionCrisp(PartitionRegion):
             error_msg = 'Bad cluster merge: expected {}, got {}'
             raise ValueError(error_msg.format(list(range(0, self.k)), indices))
 
-        # assuming 2d dataset
-        dtype = spatial_clusters[0].as_numpy.dtype
+        # assuming 2d dataset, use a type that can hold the values of all clusters
+        dtype = np.result_type(*[cluster.as_numpy.dtype for cluster in spatial_clusters])
         merged_dataset = np.empty((self.x_len, self.y_len), dtype=dtype)
 
         # this will iterate all the points in the region (not over clusters)!
-- 
2.43.0


From 3f62a7683ff87a0a0385db600388c22cd1c06363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 10/43] fix: spatial DTW weights every loaded or computed
 distance matrix exactly once

---
 spta/distance/dtw.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..4102553 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -149,6 +149,13 @@ class DistanceBySpatialDTW(DistanceByDTW):
         self.weight = weight
         self.weighted = False
 
+    def compute_distance_matrix(self, temporal_data):
+        '''
+        Calculates and stores the DTW distance matrix, still without the weights.
+        '''
+        self.weighted = False
+        return super(DistanceBySpatialDTW, self).compute_distance_matrix(temporal_data)
+
     def weight_distance_matrix(self, region):
         '''
         Uses a pre-calculated distance matrix using DTW, but then adds the weigths for the
@@ -194,7 +201,15 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        loaded = super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename,
+                                                                           expected_region)
+        if loaded is not None:
+            # the saved distances do not have the weights
+            self.weighted = False
+
+        elif self.distance_matrix is None:
+            # same as parent: the matrix could not be loaded
+            return None
 
         # add the weight
         return self.weight_distance_matrix(expected_region)
-- 
2.43.0


From 9df2a30b1fabc60c6487f7f64aa5067d7b10daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 11/43] fix: saving a scaled region works and stores the
 scaling data

---
 spta/region/scaling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 5135e20..a8696f5 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -5,7 +5,7 @@ This module handles scale and descale of spatio-temporal regions.
 import numpy as np
 
 from .function import FunctionRegionScalarSame, FunctionRegionSeries, FunctionRegionSeriesSame
-from .temporal import SpatioTemporalDecorator
+from .temporal import SpatioTemporalRegion, SpatioTemporalDecorator
 
 
 class ScaleFunction(FunctionRegionSeriesSame):
@@ -205,16 +205,16 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         Requires the metadata!
         '''
 
-        # save dataset
-        super(SpatioTemporalScaled, self).save()
+        # save dataset, don't delegate to the decorated region because it does not have the metadata
+        SpatioTemporalRegion.save(self)
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
+        min_filename = self.region_metadata.scaled_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
+        max_filename = self.region_metadata.scaled_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From e62c3696167d49438bffd5533ef62fae679e7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 12/43] fix: get_centroid calls an existing method to calculate
 the centroid

---
 spta/region/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 7431698..9d78ef2 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -108,7 +108,7 @@ class SpatioTemporalRegion(DomainRegion):
             # calculate the centroid, ugly but works...
             from . import centroid
             centroid_calc = centroid.CalculateCentroid(distance_measure)
-            self.centroid, _ = centroid_calc.find_centroid_and_cost(self)
+            self.centroid, _ = centroid_calc.find_centroid_and_distances(self)
             return self.centroid
 
     def has_centroid(self):
-- 
2.43.0


From 5e8347adc429fdf12bc4364b6314af84ec03629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 13/43] fix: centroid of a region metadata calculates its own
 distance matrix when none is saved

---
 spta/region/centroid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index e305ef6..dd59c2d 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -61,15 +61,23 @@ class CalculateCentroid(log_util.LoggerMixin):
         return centroid, distances_to_centroid
 
     @classmethod
-    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=DistanceByDTW()):
+    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=None):
         '''
         Calculate the centroid of the spatio temporal region using provided distance measure.
         If distance matrix is not available, it will be calculated first.
 
         Uses DTW by default.
         '''
+        if distance_measure is None:
+            # a new instance for each call: a distance measure keeps the matrix of its region
+            distance_measure = DistanceByDTW()
+
         spt_region = spt_region_metadata.create_instance()
 
+        if distance_measure.distance_matrix is None:
+            if distance_measure.try_load_distance_matrix(spt_region) is None:
+                distance_measure.compute_distance_matrix(spt_region)
+
         # calculate centroid, should reuse a saved distance matrix if it is available
         centroid_calc = CalculateCentroid(distance_measure)
         centroid, _ = centroid_calc.find_centroid_and_distances(spt_region)
-- 
2.43.0


From f6a7ee927723765acb03135f82fa124ff4bf4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 14/43] fix: k-medoids report supports a cluster without
 members

---
 spta/kmedoids/kmedoids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..365bd78 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -224,7 +224,8 @@ def show_report(result, elapsed_time):
     logger.info('Elapsed time: {:.2f}s'.format(elapsed_time))
 
     # calculate size of each cluster: count the number of members for each label
-    _, points_per_cluster = np.unique(result.labels, return_counts=True)
+    # (a cluster has no members when another cluster has a medoid with the same series)
+    points_per_cluster = np.bincount(result.labels, minlength=result.k)
     total_points = len(result.labels)
 
     for i in range(0, result.k):
-- 
2.43.0


From 17851ade8a76a9a92ed6cb805169de1a821451d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 15/43] fix: fuzzy k-medoids returns the initial memberships
 when no swap improves them

---
 spta/kmedoids/kmedoids_fuzzy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..58bfacc 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -167,8 +167,8 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
-                                                               tol)
+    uij, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
+                                                            tol)
     cc, SWAPPED = 0, True
 
     while True:
-- 
2.43.0


From e62a3ec9007cdc56f9d74b468ce740b37f224478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 16/43] fix: saved partitions honor the pickle_home argument

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..9be71cb 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -210,7 +210,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -241,19 +241,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From 25344de02812091faab64c02b700a444332c827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 17/43] fix: a partition saved without medoids is not reused
 when the medoids are requested

---
 spta/clustering/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 9be71cb..2686e05 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -103,6 +103,10 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
             the_partition = self.try_load_previous_partition(spt_region.region_metadata,
                                                              pickle_home)
 
+            # a partition may have been saved without the medoids, cannot use it if we need them
+            if with_medoids and not hasattr(the_partition, 'medoids'):
+                the_partition = None
+
             # flag to avoid saving a loaded partition
             if the_partition is not None:
                 loaded_from_pickle = True
-- 
2.43.0


From a12df76a6f26047d141d5a2aa712ebd8fac899e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 18/43] fix: the elbow of each seed of a suite is found with
 the costs of that seed

---
 spta/clustering/__init__.py | 5 +++--
 spta/clustering/suite.py    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 2686e05..2d98a65 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -60,10 +60,11 @@ class ClusteringMetadata():
         return '{}: k={}'.format(self.name.capitalize(), self.k)
 
     def __eq__(self, other):
-        return self.name == other.name and self.k == other.k
+        # the representation includes the parameters of each subclass (e.g. random seed)
+        return isinstance(other, ClusteringMetadata) and repr(self) == repr(other)
 
     def __hash__(self):
-        return hash((self.name, self.k))
+        return hash(repr(self))
 
 
 class ClusteringAlgorithm(log_util.LoggerMixin):
diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..b37db45 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                    ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From 91e583764e8f118d44aa2b0d32a8f3e1e6d9e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 19/43] fix: each distance measure has its own stable
 representation, used to store results

---
 spta/distance/dtw.py  | 6 ++++++
 spta/distance/rmse.py | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 4102553..f549a77 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -214,6 +214,12 @@ class DistanceBySpatialDTW(DistanceByDTW):
         # add the weight
         return self.weight_distance_matrix(expected_region)
 
+    def __repr__(self):
+        '''
+        Not the same distance as DTW, and it depends on the weight.
+        '''
+        return 'spatial_dtw_{}'.format(self.weight)
+
 
 if __name__ == '__main__':
     from spta.util import log as log_util
diff --git a/spta/distance/rmse.py b/spta/distance/rmse.py
index 242e007..a01fb4b 100644
--- a/spta/distance/rmse.py
+++ b/spta/distance/rmse.py
@@ -29,3 +29,12 @@ class DistanceByRMSE(DistanceBetweenSeries):
         Note that the errors of each series can be added using Root Mean Squared.
         '''
         return arrays_util.root_mean_squared(distances_for_point)
+
+    def __repr__(self):
+        '''
+        Useful to identify this distance_measure
+        '''
+        return 'rmse'
+
+    def __str__(self):
+        return repr(self)
-- 
2.43.0


From b75ac1cc90a58aa9c413cb5846b9e09aa7a6f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 20/43] fix: the representation of k-medoids metadata includes
 non-default max_iter and tol

---
 spta/clustering/kmedoids.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 672db74..915956b 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -7,13 +7,18 @@ from spta.kmedoids.kmedoids import run_kmedoids
 from . import ClusteringMetadata, ClusteringAlgorithm
 
 
+# defaults of the k-medoids algorithm
+DEFAULT_MAX_ITER = 1000
+DEFAULT_TOL = 0.001
+
+
 class KmedoidsClusteringMetadata(ClusteringMetadata):
     '''
     Stores metadata for k-medoids clustering algorithm.
     '''
 
-    def __init__(self, k, random_seed=1, mode='lite', initial_medoids=None, max_iter=1000,
-                 tol=0.001, verbose=True):
+    def __init__(self, k, random_seed=1, mode='lite', initial_medoids=None,
+                 max_iter=DEFAULT_MAX_ITER, tol=DEFAULT_TOL, verbose=True):
         '''
         Sets up the k-medoids metadata with default values. The value of k is still required.
         '''
@@ -44,6 +49,12 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
             indices_str = '-'.join(indices_str)
             r = '{}_im{}'.format(r, indices_str)
 
+        # these also change the result of the clustering: show them if they are not the defaults
+        if self.max_iter != DEFAULT_MAX_ITER:
+            r = '{}_iter{}'.format(r, self.max_iter)
+        if self.tol != DEFAULT_TOL:
+            r = '{}_tol{}'.format(r, self.tol)
+
         return r
 
     def __str__(self):
@@ -72,7 +83,16 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
 
         # 3. mode
         mode = parts[3]   # e.g. lite
-        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode)
+
+        # 4. other parameters, only present if they don't have the default values
+        params = {}
+        for part in parts[4:]:
+            if part.startswith('iter'):
+                params['max_iter'] = int(part[4:])   # e.g. iter10
+            elif part.startswith('tol'):
+                params['tol'] = float(part[3:])   # e.g. tol0.1
+
+        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode, **params)
 
     @classmethod
     def from_classifier_label(cls, classifier_label, mode='lite'):
-- 
2.43.0


From b645e01a1d6f0d11e1f64e4e5315db90fa23ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 21/43] fix: k-NN parameters with different distance measures
 have different representations

---
 spta/model/knn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spta/model/knn.py b/spta/model/knn.py
index 4cb5f04..727e8ef 100644
--- a/spta/model/knn.py
+++ b/spta/model/knn.py
@@ -24,9 +24,8 @@ class KNNParams(namedtuple('KNNParams', 'k distance_measure')):
         # https://stackoverflow.com/a/7914212/3175179
         '''
 
-        # assuming DTW, could be RMSE or some other euclidean distance
-        as_str = 'knn-k{}-dtw'
-        return as_str.format(self.k)
+        as_str = 'knn-k{}-{!r}'
+        return as_str.format(self.k, self.distance_measure)
 
     def __str__(self):
         return super(KNNParams, self).__repr__()
-- 
2.43.0


From 98a6da83ae4a7fafef3059bfe72ad78ec43ac4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 22/43] fix: training again discards the forecasts of the
 previous models

---
 spta/model/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..0eb3b61 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -61,6 +61,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         self.logger.info('Training models using: {}'.format(self.trainer.__class__.__name__))
         self.model_region = self.trainer.apply_to(self.training_region)
 
+        # forecasts made by previously trained models are no longer valid
+        self.forecast_region_each = None
+
         return self.model_region
 
     def forecast_at_each_point(self, forecast_len, error_type):
-- 
2.43.0


From 4b133a0e3b538ba4d312be2d7b15dcf1cebcde49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 23/43] fix: saved solvers with different test lengths do not
 share their re-fitted models

---
 spta/solver/metadata.py | 6 ++++--
 spta/solver/model.py    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/spta/solver/metadata.py b/spta/solver/metadata.py
index eb922f4..b4fdd40 100644
--- a/spta/solver/metadata.py
+++ b/spta/solver/metadata.py
@@ -55,12 +55,14 @@ class SolverMetadataBasic(object):
         for forecasting, an adequate test_len has to be specified by the user.
 
         If a model region was trained with the full dataset, then use with_test_samples=False,
-        the filename will not include test_len.
+        the filename will indicate this. It still includes test_len, because the models are
+        re-fitted from the models that were trained by reserving the test samples (e.g. for
+        auto ARIMA, the hyper-parameters were found without using the test samples).
         '''
         test_len_str = 'tp{}'.format(self.test_len)
         if not with_test_samples:
             # assume that the models are using the whole dataset (no test subset)
-            test_len_str = 'whole'
+            test_len_str = '{}-whole'.format(test_len_str)
 
         return '{}__{!r}__{}.pkl'.format(name_prefix, self.model_params, test_len_str)
 
diff --git a/spta/solver/model.py b/spta/solver/model.py
index 9c7f6d3..ac276e5 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -238,7 +238,7 @@ class SolverPickler(log_util.LoggerMixin):
                     |- errors__<model_params>__tp<tp>__<error>.pkl
                     |- partition_<clustering_metadata>.pkl
                     |- models-at-medoids-<model_params>__tp<tp>.pkl
-                    |- models-at-medoids-<model_params>__whole.pkl
+                    |- models-at-medoids-<model_params>__tp<tp>-whole.pkl
     '''
 
     def __init__(self, solver_metadata):
-- 
2.43.0


From 003fa7fb08dfd33273a201fc37ad9f72f4dc72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 24/43] fix: random training points are never medoids in
 regions with an offset

---
 spta/classifier/train_input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..afffbe1 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -622,9 +622,12 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
         unique_medoid_points.update(medoids)
 
     # to get the indices, we need the region
+    # the medoids are in absolute coordinates but the indices are relative to the region,
+    # remove the offset of the region
     y_len = spt_region.y_len
+    region = spt_region.region_metadata.region
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - region.x1) * y_len + (unique_medoid_point.y - region.y1)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From 978871af3d4e80233c8d928e073c4abbbe463a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 25/43] fix: distance histograms of clusters with a single
 point

---
 spta/distance/variance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..7ed5070 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,10 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # a cluster with a single point has no such distance
+        min_distance_not_zero = np.nan
+        if len(distances) > 1:
+            min_distance_not_zero = np.partition(distances, 1)[1]
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From 76698401c8d14c256ce943489b1444b2a702a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 26/43] fix: auto ARIMA training without data returns no model

---
 spta/arima/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/arima/train.py b/spta/arima/train.py
index d864606..707f875 100644
--- a/spta/arima/train.py
+++ b/spta/arima/train.py
@@ -127,13 +127,13 @@ class TrainerAutoArima(ModelTrainer):
         run pyramid.arima.auto_arima to discover "optimal" p, d, q for a training_series, and fit the
         resulting model with the same training data.
         '''
-        self.logger.debug('Running auto_arima with training size {}'.format(len(training_series)))
-
         # sanity check: no parameters means no model, no data means no model
         # useful for sparse datasets or when refitting
         if auto_arima_params is None or training_series is None:
             return None
 
+        self.logger.debug('Running auto_arima with training size {}'.format(len(training_series)))
+
         try:
             # find p, d, q with auto_arima, get a model
             sarimax_model = auto_arima(training_series,
-- 
2.43.0


From ee1b829cc3b909b5f6bcb48fc54e20c2d1c9970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 27/43] fix: results of a classifier solver use the output_home
 of their query

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..5ea257d 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From ed3e19bcb63d0bf21c703ade43aa1d4c876d661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 28/43] fix: each query of a classifier solver classifies the
 region that it specifies

---
 spta/classifier/model.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 5ea257d..1a473fe 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -77,10 +77,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # cache solvers so that we don't reconstruct them every single time
         self.solvers = {}
 
-    def prepare(self, out_of_sample_region):
+    def prepare(self):
         '''
         Here we make sure that the classifier is loaded so that it can answer with a label.
-        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
         '''
         # need actual code...
         # self.classifier = RandomClassifier()
@@ -89,6 +88,17 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
+        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
+                                                 model_params=self.model_params,
+                                                 test_len=self.test_len,
+                                                 error_type=self.error_type)
+        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
+
+    def prepare_target(self, out_of_sample_region):
+        '''
+        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
+        It depends on the query: each query can specify a different out-of-sample region.
+        '''
         if out_of_sample_region is None:
             # no out-of-sample target specified, us the same region
             self.target_spt_region = self.spt_region
@@ -96,12 +106,6 @@ class SolverFromClassifier(log_util.LoggerMixin):
             # use a different, 'out-of-sample' region
             self.target_spt_region = out_of_sample_region.create_instance()
 
-        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
-                                                 model_params=self.model_params,
-                                                 test_len=self.test_len,
-                                                 error_type=self.error_type)
-        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
-
     def predict(self, prediction_region, tp, out_of_sample_region=None, output_home='outputs'):
         '''
         Ask the solver to create a forecast for the specified region using the specified number
@@ -117,7 +121,8 @@ class SolverFromClassifier(log_util.LoggerMixin):
         '''
 
         if self.classifier is None:
-            self.prepare(out_of_sample_region)
+            self.prepare()
+        self.prepare_target(out_of_sample_region)
         assert self.classifier is not None
         assert self.target_spt_region is not None
 
-- 
2.43.0


From 80b76e8437dd4f0b564a0bd5f99b3a803258957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 29/43] fix: forecast errors of scaled regions without a
 training region

---
 spta/model/error.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index a984d1e..34bfaa3 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -111,7 +111,9 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            self.training_region = None
+            if training_region is not None:
+                self.training_region = training_region.descale()
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From 21d730ea91ad5e15dbf310d224b6e77f30382076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 30/43] fix: silhouette metadata of different regions do not
 share the distances of one of them

---
 spta/kmedoids/silhouette.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index df32441..23f1ce8 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -293,7 +293,7 @@ DEFAULT_SAVE_GRAPHS = 'plots/silhouette'
 
 
 def silhouette_default_metadata(k_values, seed_values, kmedoids_mode='lite',
-                                distance_measure=DistanceByDTW(), initial_medoids=None,
+                                distance_measure=None, initial_medoids=None,
                                 max_iter=1000, tol=0.001, verbose=True, show_graphs=True,
                                 save_graphs=DEFAULT_SAVE_GRAPHS, plot_name=None):
     '''
@@ -304,6 +304,10 @@ def silhouette_default_metadata(k_values, seed_values, kmedoids_mode='lite',
         # override save_graphs
         save_graphs = 'plots/{}'.format(plot_name)
 
+    # a new instance each time: the distance measure will store the distances of the region analyzed
+    if distance_measure is None:
+        distance_measure = DistanceByDTW()
+
     return SilhouetteMetadata(k_values=k_values, seed_values=seed_values,
                               kmedoids_mode=kmedoids_mode, distance_measure=distance_measure,
                               initial_medoids=initial_medoids, max_iter=max_iter, tol=tol,
-- 
2.43.0


From 4391d6270a3e78fef712eab400c470fb6b58f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 31/43] fix: plot of a partition with a rectangle and without
 subplot

---
 spta/util/plot.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spta/util/plot.py b/spta/util/plot.py
index 3de5b4f..cc877bf 100644
--- a/spta/util/plot.py
+++ b/spta/util/plot.py
@@ -130,12 +130,13 @@ def plot_partition(partition, title='', subplot=None, rectangle_region=None, mar
     If rectangle_region is provided, it will also draw a red rectangle representing a region of
     interest within the partition plot. Useful for prediction regions in solvers.
     '''
-    fig = plot_discrete_spatial_region(partition, title, True, subplot, mark_points)
+    fig = None
+    had_subplot = True
+    if subplot is None:
+        fig, subplot = plt.subplots(1, 1)
+        had_subplot = False
 
-    plot_here = fig
-    if subplot is not None:
-        # if subplot is provided, then we draw in the subplot
-        plot_here = subplot
+    plot_discrete_spatial_region(partition, title, True, subplot, mark_points)
 
     if rectangle_region is not None:
 
@@ -150,8 +151,11 @@ def plot_partition(partition, title='', subplot=None, rectangle_region=None, mar
         height = rectangle_region.x2 - rectangle_region.x1
 
         # https://stackoverflow.com/questions/52056475/python-plot-rectangles-of-known-size-at-scatter-points
-        plot_here.add_patch(Rectangle(xy=xy, width=width, height=height, linewidth=1,
-                                      color='red', fill=False))
+        subplot.add_patch(Rectangle(xy=xy, width=width, height=height, linewidth=1,
+                                    color='red', fill=False))
+
+    if not had_subplot:
+        plt.show()
 
     return fig
 
-- 
2.43.0


From dc13e52cbe58ffc27d99f0d29d17a02b9ea0d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 32/43] fix: plots of distances and errors when the model at
 the medoid could not be trained

---
 experiments/auto_arima/distance_errors.py | 5 ++++-
 spta/model/forecast.py                    | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/experiments/auto_arima/distance_errors.py b/experiments/auto_arima/distance_errors.py
index 1759e35..121ebf2 100644
--- a/experiments/auto_arima/distance_errors.py
+++ b/experiments/auto_arima/distance_errors.py
@@ -225,8 +225,11 @@ def distance_vs_errors_for_cluster(cluster, solver_trainer, partition, forecast_
     if with_plots:
 
         # get ARIMA order at point of interest, need the value to get the actual ARIMA object
+        # there is no order if the model could not be trained
         fitted_arima_at_medoid = arima_model_region.value_at(cluster.centroid)
-        arima_order = fitted_arima_at_medoid.model.order
+        arima_order = None
+        if fitted_arima_at_medoid is not None:
+            arima_order = fitted_arima_at_medoid.model.order
 
         # add some info about plot
         info_text = '\n'.join((
diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 0eb3b61..960a566 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -317,9 +317,11 @@ class ForecastAnalysis(log_util.LoggerMixin):
         _, subplot = plt.subplots(1, 1, figsize=(7, 5))
         subplot.plot(distances_to_point, forecast_errors, 'bo')
 
-        # get ARIMA order at point of interest
+        # get ARIMA order at point of interest, there is no order if the model could not be trained
         fitted_arima_at_point = self.model_region.value_at(point_of_interest)
-        arima_order = fitted_arima_at_point.model.order
+        arima_order = None
+        if fitted_arima_at_point is not None:
+            arima_order = fitted_arima_at_point.model.order
 
         # title
         title = 'Distances to medoid vs forecast errors at medoid'
-- 
2.43.0


From 1bfe91933b3b263099499119c2486d70db51d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 33/43] fix: the partition analysis did not accept a number of
 bins

---
 experiments/clustering/partition_analysis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/experiments/clustering/partition_analysis.py b/experiments/clustering/partition_analysis.py
index 1ccae9e..61ecad2 100644
--- a/experiments/clustering/partition_analysis.py
+++ b/experiments/clustering/partition_analysis.py
@@ -61,7 +61,7 @@ def processRequest():
     help_msg = 'Add N random points outside each cluster in variance analysis, =0 for auto N'
     parser.add_argument('--random', help=help_msg)
     help_msg = 'bins argument for plt.hist(), (default: %(default)s)'
-    parser.add_argument('--bins', help=help_msg, default='auto')
+    parser.add_argument('--bins', help=help_msg, default='auto', type=bins_argument)
 
     # logging
     log_options = ('WARN', 'INFO', 'DEBUG')
@@ -78,6 +78,13 @@ def processRequest():
     analyze_suite(args, logger)
 
 
+def bins_argument(bins):
+    '''
+    The bins argument of plt.hist() is either a number of bins or the name of a strategy, e.g. 'auto'
+    '''
+    return int(bins) if bins.isdigit() else bins
+
+
 def analyze_suite(args, logger):
 
     region_metadata, clustering_suite = metadata_from_args(args)
-- 
2.43.0


From aefb6a13e057f463d17b808eb35bbfcac3409516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 34/43] fix: density clustering used an undefined distance
 measure

---
 spta/clustering/dbscan.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/dbscan.py b/spta/clustering/dbscan.py
index 9931547..e16852f 100644
--- a/spta/clustering/dbscan.py
+++ b/spta/clustering/dbscan.py
@@ -70,8 +70,12 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         '''
         self.logger.info('Clustering algorithm {}'.format(self.metadata))
 
-        db = DBSCAN(eps=0.7, min_samples=5, metric='precomputed',
-                    algorithm='auto', leaf_size=30, p=None, n_jobs=None).fit(distance_dtw.distance_matrix)
+        # the algorithm requires all distances
+        if self.distance_measure.distance_matrix is None:
+            self.distance_measure.compute_distance_matrix(spt_region)
+
+        db = DBSCAN(eps=0.7, min_samples=5, metric='precomputed', algorithm='auto', leaf_size=30,
+                    p=None, n_jobs=None).fit(self.distance_measure.distance_matrix)
 
         core_samples_mask = np.zeros_like(db.labels_, dtype=bool)
         core_samples_mask[db.core_sample_indices_] = True
-- 
2.43.0


From bd413b5a9513eafb287fb37d89c06c4756daa14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 35/43] fix: the random seed did not repeat the noise of
 synthetic series

---
 spta/classifier/synthetic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/classifier/synthetic.py b/spta/classifier/synthetic.py
index 5dd5546..b9e559c 100644
--- a/spta/classifier/synthetic.py
+++ b/spta/classifier/synthetic.py
@@ -1,4 +1,5 @@
 import csv
+import numpy as np
 import random
 
 from spta.dataset import synthetic_temporal
@@ -14,6 +15,9 @@ def generate_synthetic_series(available_ks, clustering_seeds, num_medoids, num_e
     logger = log_util.logger_for_me(generate_synthetic_series)
     random.seed(random_seed)
 
+    # the noise uses the random state of numpy
+    np.random.seed(random_seed)
+
     output = []
 
     # generate 'num_medoids' random medoids that are within the (0, 0) - (x_len, y_len) region.
-- 
2.43.0


From 060be4811ec5f3b58fba58848147e3757f52e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 36/43] fix: write all the values of long forecasts to the
 result CSV

---
 spta/solver/result.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/solver/result.py b/spta/solver/result.py
index a03d269..e8377cb 100644
--- a/spta/solver/result.py
+++ b/spta/solver/result.py
@@ -1,6 +1,7 @@
 import csv
 import numpy as np
 import os
+import sys
 
 from spta.region import Point
 from spta.region.base import BaseRegion
@@ -190,7 +191,9 @@ class PredictionQueryResult(BaseRegion):
 
         np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
 
-        self.write_prediction_results(csv_dir)
+        # numpy abbreviates long series, write all the values
+        with np.printoptions(threshold=sys.maxsize):
+            self.write_prediction_results(csv_dir)
         self.write_prediction_summary(csv_dir)
 
     def write_prediction_results(self, csv_dir):
-- 
2.43.0


From 1bc0b66a0ec3f9c4721ad9feed5349b3700c26f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 37/43] fix: calculate the distances to a point when the saved
 distance matrix is missing

---
 spta/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index 24c33c5..b85fbb3 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -122,7 +122,8 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
             try:
                 # can we load a saved distance matrix?
                 # this requires the metadata of the region
-                self.load_distance_matrix_md(spt_region.region_metadata)
+                if self.load_distance_matrix_md(spt_region.region_metadata) is None:
+                    raise ValueError('Saved distance matrix not found')
 
             except Exception as err:
 
-- 
2.43.0


From 60764eefe910fecb260b4ca3016d2b902653c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 38/43] fix: fuzzy membership of points with distance zero to a
 medoid

---
 spta/kmedoids/kmedoids_fuzzy.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 58bfacc..a41b02b 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -136,11 +136,15 @@ def compute_membership_fcm(X, m, medoids, distance_measure, tol):
         # divide by the denominator
         uij[:, i] = uij[:, i] / uij_den
 
-        # special case for medoids (i = medoid index):
-        # uij is (inf / inf) when j is the medoid's cluster, 0 for other clusters
-        # 0 is calculated correctly, but (inf / inf) returns nan.
-        # Here we set that value to 1 to indicate that the medoid has full membership
-        # to its cluster
+    # a point at distance zero from one or more medoids (e.g. an equal series) also gets inf / inf,
+    # it is shared equally among these medoids
+    at_medoid = (dist_mat == 0)
+    for j in np.where(at_medoid.any(axis=1))[0]:
+        uij[j, :] = at_medoid[j, :] / np.sum(at_medoid[j, :])
+
+    # each medoid only belongs to its own cluster, even if its series is equal to another medoid
+    for i in range(0, k):
+        uij[medoids[i].index, :] = 0
         uij[medoids[i].index, i] = 1
 
     # sanity check: adding all the membership values of a point should return 1 or very close to it
-- 
2.43.0


From 59fb83221e6be9da8e50768d8a9421cf0a4c13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 39/43] fix: common scale of the cluster histograms when the
 random points change with each call

---
 spta/distance/variance.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 7ed5070..1ee1f2d 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -546,8 +546,19 @@ class DistanceHistogramClusters(DistanceHistogram):
 
         _, subplots = plt.subplots(div_x, div_y, figsize=figsize)
 
+        # find the distances to each centroid once: the random points change with each call
+        distances = [
+            self.histograms[i].distances_to_point(cluster.centroid)
+            for i, cluster
+            in enumerate(self.clusters)
+        ]
+
         # use maximum distance to override x_lim of all subplots
-        max_override = self.max_distance()
+        max_override = np.max([
+            self.histograms[i].max_distance(distances[i])
+            for i
+            in range(len(self.clusters))
+        ])
 
         # if saving plot, the filename is calculated using the clustering algorithm and possible
         # random points
@@ -580,8 +591,7 @@ class DistanceHistogramClusters(DistanceHistogram):
             # don't pass plot_name to avoid saving each subplot
             # should also work with decorated histograms
             histogram_i = self.histograms[i]
-            distances_i = histogram_i.distances_to_point(cluster.centroid)
-            histogram_i.plot(distances=distances_i,
+            histogram_i.plot(distances=distances[i],
                              subplot=subplot,
                              with_statistics=with_statistics,
                              plot_name=None,
-- 
2.43.0


From 9e5c6b83f58be52742b67b4a15be463c17fba53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 40/43] fix: write all the values of the result CSV with three
 decimals

---
 spta/solver/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/solver/result.py b/spta/solver/result.py
index e8377cb..bca6be0 100644
--- a/spta/solver/result.py
+++ b/spta/solver/result.py
@@ -192,7 +192,8 @@ class PredictionQueryResult(BaseRegion):
         np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
 
         # numpy abbreviates long series, write all the values
-        with np.printoptions(threshold=sys.maxsize):
+        # (setting any print option resets the formatter)
+        with np.printoptions(threshold=sys.maxsize, formatter={'float': '{: 0.3f}'.format}):
             self.write_prediction_results(csv_dir)
         self.write_prediction_summary(csv_dir)
 
-- 
2.43.0


From 1bf31bfebc53e798389ac63c01cd6b98b5c4126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 41/43] fix: name the clustering suite in the results of the
 classifier solver program

---
 experiments/classifier/solver_dnn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/classifier/solver_dnn.py b/experiments/classifier/solver_dnn.py
index b94a646..ef3f67f 100644
--- a/experiments/classifier/solver_dnn.py
+++ b/experiments/classifier/solver_dnn.py
@@ -140,6 +140,7 @@ def metadata_from_args(args):
 
     clustering_suite = get_clustering_suite(experiment.clustering_type,
                                             experiment.clustering_suite_id)
+    clustering_suite.identifier = experiment.clustering_suite_id
 
     auto_arima_params = predefined_auto_arima()[experiment.auto_arima_id]
     classifier_params = classifier_experiments()[args.classifier]
-- 
2.43.0


From 428b65787a23e152f9df9bf07c5b7ef2a61b6222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 42/43] fix: distances to a point given with unsigned
 coordinates wrapped around

---
 spta/util/arrays.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/util/arrays.py b/spta/util/arrays.py
index 6723daf..eefdf53 100644
--- a/spta/util/arrays.py
+++ b/spta/util/arrays.py
@@ -131,7 +131,9 @@ def distances_to_point_in_2d_region(i, j, x_len, y_len):
     euclidian distances from each point to the (i,j) point.
     '''
     single_point = [i, j]
-    points_of_2d_region = list_of_2d_points(x_len, y_len)
+
+    # signed coordinates, the differences can be negative
+    points_of_2d_region = list_of_2d_points(x_len, y_len).astype(np.int64)
     return np.linalg.norm(points_of_2d_region - single_point, axis=1)
 
 
-- 
2.43.0


From 9dff8a2272c573aed9f881ec2c7e882784cac24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 43/43] fix: training files of requests with another threshold
 were replaced

---
 spta/classifier/train_input.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index afffbe1..cbf29b1 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -92,7 +92,8 @@ class TrainDataWithRandomPoints(log_util.LoggerMixin):
         (choice_csv, hist_csv) = choice_strategy.csv_filepaths(output_home=output_home,
                                                                clustering_suite=clustering_suite,
                                                                count=count,
-                                                               random_seed=random_seed)
+                                                               random_seed=random_seed,
+                                                               threshold=threshold)
 
         # create the CSV for the random points
         with open(choice_csv, 'w', newline='') as csv_file:
@@ -173,6 +174,13 @@ class TrainDataWithRandomPoints(log_util.LoggerMixin):
         return random_points
 
 
+def threshold_suffix(threshold):
+    '''
+    The part of a filename that identifies the threshold, empty if no threshold is used.
+    '''
+    return '_threshold{}'.format(threshold) if threshold else ''
+
+
 class MedoidsChoiceStrategy(log_util.LoggerMixin):
     '''
     A generic algorithm that chooses a single medoid from suite_result according to a penalization criterion.
@@ -290,11 +298,12 @@ class MedoidsChoiceStrategy(log_util.LoggerMixin):
                     scores[cluster_index] = np.Inf
                     self.logger.debug('Tuple ({}, {}) reached threshold, not choosing it'.format(clustering_repr, cluster_index))
 
-    def csv_filepaths(output_home, clustering_suite, count, random_seed):
+    def csv_filepaths(output_home, clustering_suite, count, random_seed, threshold=0):
         '''
         Returns proper output filenames to store:
             - the output of applying this choosing strategy.
             - the medoid histogram.
+        The threshold changes the choices, so it is part of the filenames when it is used.
         '''
         pass
 
@@ -346,14 +355,16 @@ class MedoidsChoiceMinDistance(MedoidsChoiceStrategy):
         # the score of each medoid is its distance, we are done
         return distances
 
-    def csv_filepaths(self, output_home, clustering_suite, count, random_seed):
+    def csv_filepaths(self, output_home, clustering_suite, count, random_seed, threshold=0):
         '''
         Returns the CSV filenames relevant to minimizing the distance.
         '''
         csv_dir = clustering_suite.csv_dir(output_home, self.region_metadata, self.distance_measure)
-        filename_template = '{}_dist_medoid__{!r}_count{}_seed{}.csv'
-        choice_filename = filename_template.format('random_point', clustering_suite, count, random_seed)
-        hist_filename = filename_template.format('hist', clustering_suite, count, random_seed)
+        filename_template = '{}_dist_medoid__{!r}_count{}_seed{}{}.csv'
+        choice_filename = filename_template.format('random_point', clustering_suite, count, random_seed,
+                                                   threshold_suffix(threshold))
+        hist_filename = filename_template.format('hist', clustering_suite, count, random_seed,
+                                                 threshold_suffix(threshold))
         return (os.path.join(csv_dir, choice_filename), os.path.join(csv_dir, hist_filename))
 
 
@@ -439,16 +450,16 @@ class MedoidsChoiceMinPredictionError(MedoidsChoiceStrategy):
         penalties[cluster_index_of_representative] = forecast_error_at_representative
         return penalties
 
-    def csv_filepaths(self, output_home, clustering_suite, count, random_seed):
+    def csv_filepaths(self, output_home, clustering_suite, count, random_seed, threshold=0):
         '''
         Returns the CSV filenames relevant to minimizing the prediction error of the model in the medoid.
         '''
         csv_dir = clustering_suite.csv_dir(output_home, self.region_metadata, self.distance_measure)
-        filename_template = '{}_medoid_min_pred_error__{!r}__tp{}__{}__{!r}_count{}_seed{}.csv'
+        filename_template = '{}_medoid_min_pred_error__{!r}__tp{}__{}__{!r}_count{}_seed{}{}.csv'
         choice_filename = filename_template.format('random_point', self.model_params, self.test_len, self.error_type,
-                                                   clustering_suite, count, random_seed)
+                                                   clustering_suite, count, random_seed, threshold_suffix(threshold))
         hist_filename = filename_template.format('hist', self.model_params, self.test_len, self.error_type,
-                                                 clustering_suite, count, random_seed)
+                                                 clustering_suite, count, random_seed, threshold_suffix(threshold))
         return (os.path.join(csv_dir, choice_filename), os.path.join(csv_dir, hist_filename))
 
     def build_solver_metadata(self, clustering_repr):
-- 
2.43.0

