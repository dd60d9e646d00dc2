'''
C19 suites of clusterings. Every vector of costs over a grid for 3 to 5 values of k (evenly and
unevenly spaced), for one and for two seeds: the elbow of each seed is the k with the largest discrete
second derivative of the costs of that seed. Every partition, choice of medoids and small distance
matrix: the intra-cluster cost is the sum of squared distances to the medoids. The analysis programs
run end to end and what they store is read back and compared with direct computations.
'''
import argparse
import csv
import glob
import itertools
import logging
import os

import numpy as np

from experiments.clustering import medoid_distances, partition_analysis
from experiments.metadata.region import predefined_regions
from experiments.metadata.clustering import get_suite
from spta.clustering.factory import ClusteringFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.suite import ClusteringSuite, FindSuiteElbow
from spta.distance.dtw import DistanceByDTW
from spta.kmedoids import medoids_to_absolute_coordinates
from spta.kmedoids.kmedoids import run_kmedoids
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.partition import intra_cluster_cost
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.checks.c13 import Fixed, matrices
from mc.core import same, raises

TECHNIQUE = 'exhaustive enumeration of cost curves, partitions and suite runs against reference computations'
LEVEL_NOTE = ('Costs in {0,1,3,7} (thorough {0,1,3,7,12}) for 3-5 k values (also scaled to nearly equal ones), all pairs of cost vectors for two '
              'seeds; all matrices over {0,1,2} on 4 points with all medoid choices; 4 end-to-end suite runs.')
CASE_TIMEOUT = 300

KS = [(2, 3, 4), (2, 3, 5), (2, 5, 6), (1, 4, 9), (2, 3, 4, 5), (2, 4, 5, 9), (1, 2, 6, 7), (2, 3, 4, 5, 6),
      (2, 3, 7, 8, 12)]


def cases(tier):
    thorough = tier != 'quick'
    for ks in KS:
        yield {'m': 'elbow', 'ks': ks, 'grid': [0, 1, 3, 7, 12] if thorough else [0, 1, 3, 7]}
    for ks in KS[:4]:
        for blk in range(16):
            yield {'m': 'seeds', 'ks': ks, 'blk': blk}
    for lab in itertools.chain(lib.surjections(4, 1), lib.surjections(4, 2), lib.surjections(4, 3)):
        for shape in ((2, 2), (1, 4)):
            yield {'m': 'cost', 'lab': lab, 'shape': shape}
    for i in range(6):
        yield {'m': 'suite', 'i': i}
    for kind, suite in (('kmedoids', 'quick'), ('regular', 'quick')):
        for region in ('nordeste_small_2015_2015_1spd', 'nordeste_small_2015_2015_1spd_scaled'):
            yield {'m': 'program', 'kind': kind, 'suite': suite, 'region': region}


def second_derivatives(ks, costs):
    out = []
    for i in range(1, len(ks) - 1):
        x1, x2, x3 = ks[i - 1:i + 2]
        y1, y2, y3 = costs[i - 1:i + 2]
        out.append(2.0 * ((y3 - y2) / (x3 - x2) - (y2 - y1) / (x2 - x1)) / (x3 - x1))
    return out


def elbow_ok(k, ks, costs):
    dd = second_derivatives(ks, costs)
    return k in ks[1:-1] and dd[ks.index(k) - 1] >= max(dd) - 1e-9


def run(spec, ctx):
    m = spec['m']
    if m == 'elbow':
        ks = spec['ks']
        suite = ClusteringSuite('q', 'kmedoids', k=ks, random_seed=(3,))
        find = FindSuiteElbow(suite, None, DistanceByDTW())
        ordered = list(suite)
        for costs in itertools.product(spec['grid'], repeat=len(ks)):
            got = find.find_cost_elbow_given_order(dict(zip(ordered, costs)), ordered)
            ctx.check(elbow_ok(got.k, ks, costs), 'elbow of k={} costs={}: k={}'.format(ks, costs, got.k))
            got = find.find_cost_elbow_for_each_kmedoids_seed(dict(zip(ordered, costs)))
            ctx.check(list(got) == [3] and elbow_ok(got[3].k, ks, costs), 'elbow for the only seed')
            small = [0.0011 * c + 5000.25 for c in costs]
            got2 = find.find_cost_elbow_given_order(dict(zip(ordered, small)), ordered)
            ctx.check(elbow_ok(got2.k, ks, small), 'elbow of k={} costs={}: k={}'.format(ks, small, got2.k))
            ctx.step(3)
            ctx.state(ks, costs)
            ctx.outcome(ks, got[3].k)
        ctx.check(raises(lambda: find.find_cost_elbow_given_order(
            dict(zip(ordered[:2], (1, 2))), ordered[:2])), 'two points have no elbow')
        return
    if m == 'seeds':
        ks = spec['ks']
        suite = ClusteringSuite('q', 'kmedoids', k=ks[::-1], random_seed=(0, 7))
        find = FindSuiteElbow(suite, None, DistanceByDTW())
        grid = list(itertools.product([0, 1, 3, 7], repeat=3))
        for ca in grid[spec['blk'] * 4:spec['blk'] * 4 + 4]:
            for cb in grid:
                costs = {}
                for md in suite:
                    costs[md] = (ca if md.random_seed == 0 else cb)[ks.index(md.k)]
                got = find.find_cost_elbow_for_each_kmedoids_seed(costs)
                ctx.check(set(got) == {0, 7}, 'one elbow for each seed')
                for seed, c in ((0, ca), (7, cb)):
                    ctx.check(got[seed].random_seed == seed and elbow_ok(got[seed].k, ks, c),
                              'seeds costs {} and {}: elbow of seed {} is k={}'.format(ca, cb, seed, got[seed].k))
                ctx.step()
                ctx.state(ks, ca, cb)
                ctx.outcome(got[0].k, got[7].k)
        return
    if m == 'cost':
        lab, (x, y) = spec['lab'], spec['shape']
        k = max(lab) + 1
        st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
        members = [[i for i in range(4) if lab[i] == c] for c in range(k)]
        for mat in matrices(4, [0, 1, 2]):
            for med in itertools.product(*members):
                part = fx.partition(lab, x, y)
                part.medoids = [Point(*divmod(i, y)) for i in med]
                got = intra_cluster_cost(part, st, Fixed(mat))
                want = sum(mat[i, med[lab[i]]] ** 2 for i in range(4))
                ctx.check(same(got, want), 'cost of {} medoids {}: {} expected {}'.format(lab, med, got, want))
                ctx.step()
            ctx.state(lab, x, mat.tobytes())
        return
    if m == 'suite':
        # real region, two or three seeds: elbows from the stored or fresh partitions
        i = spec['i']
        ctx.fresh_dir()
        fx.write_raw(lib.distinct3d(365, 5, 6) + 0.37 * i * lib.distinct3d(365, 5, 6, 'neg')[:, ::-1, :])
        md = SpatioTemporalRegionMetadata('r', Region(1, 4, 0, 4), 2015, 2015, 1, scaled=bool(i % 2))
        st = md.create_instance()
        X = st.as_2d
        mat = DistanceByDTW().compute_distance_matrix(X)
        if i % 3 == 0:
            np.save(md.distances_filename, mat)
        ks = [(2, 3, 4, 5), (2, 4, 7)][i % 2]
        seeds = (0, 1, 2)
        suite = ClusteringSuite('q', 'kmedoids', k=ks, random_seed=seeds)
        want = {}
        for s in seeds:
            costs = []
            for k in ks:
                d = DistanceByDTW()
                d.distance_matrix = mat
                r = run_kmedoids(X, k, d, random_seed=s)
                costs.append(sum(mat[p, r.medoids[r.labels[p]]] ** 2 for p in range(len(X))))
            want[s] = costs
        for _ in range(2):
            dist = DistanceByDTW()
            dist.distance_matrix = mat
            find = FindSuiteElbow(suite, st, dist)
            parts = find.get_all_partitions('pk')
            ctx.check(len(parts) == len(ks) * len(seeds), 'a partition for each configuration')
            costs = find.get_all_intra_cluster_costs(parts)
            for c in suite:
                ctx.check(same(costs[c], want[c.random_seed][ks.index(c.k)]), 'cost of {!r}'.format(c))
            elbows = find.calculate_elbows_kmedoids('pk')
            for s in seeds:
                ctx.check(elbow_ok(elbows[s].k, ks, want[s]) and elbows[s].random_seed == s,
                          'elbow of seed {}: {} costs {}'.format(s, elbows[s], want[s]))
            ctx.step(len(parts) + 1)
            ctx.outcome(tuple(e.k for e in elbows.values()))
        ctx.state('suite', i)
        return

    # programs
    ctx.fresh_dir()
    big = np.zeros((365, 50, 95))
    big[:, 43:, 85:] = lib.distinct3d(365, 7, 10)
    fx.write_raw(big)
    md = predefined_regions()[spec['region']]
    st = md.create_instance()
    n = 70
    idx = np.arange(n)
    mat = np.abs(np.subtract.outer(idx * 7 % 53, idx * 7 % 53)).astype(float) + \
        0.01 * np.abs(np.subtract.outer(idx, idx))
    np.save(md.distances_filename, mat)
    args = argparse.Namespace(region=spec['region'], clustering_type=spec['kind'], clustering=spec['kind'],
                              clustering_suite=spec['suite'], silhouette=False, variance=False,
                              random=None, bins='auto', log='WARN')
    logger = logging.getLogger('mc')
    suite = get_suite(spec['kind'], spec['suite'])
    suite.identifier = spec['suite']
    dist = DistanceByDTW()
    dist.load_distance_matrix_2d(md.distances_filename, md.region)
    expected = {}
    for c in suite:
        part = ClusteringFactory(dist).instance(c).partition(st)
        expected[repr(c)] = part
    for run_no in range(2):      # the second run uses stored partitions
        partition_analysis.analyze_suite(args, logger)
        res = suite.retrieve_suite_result_csv('outputs', md, dist)
        ctx.check(set(res) == set(expected), 'configurations in the stored analysis: {}'.format(sorted(res)))
        with open(suite.analysis_csv_filepath('outputs', md, dist), newline='') as f:
            rows = {r[0]: r for r in list(csv.reader(f, delimiter=' ', quotechar='|'))[1:]}
        for name, part in expected.items():
            want = [(p.x + 43, p.y + 85) for p in part.medoids]
            got = [(p.x, p.y) for p in res[name]]
            ctx.check(got == want, '{}: medoids read {} expected {}'.format(name, got, want))
            lab = part.membership_of_point_indices(list(range(n)))
            med = [p.x * 10 + p.y for p in part.medoids]
            cost = sum(mat[i, med[lab[i]]] for i in range(n))
            ctx.check(abs(float(rows[name][1]) - cost) < 0.002, '{}: cost {} expected {}'.format(name, rows[name][1], cost))
            if spec['kind'] == 'kmedoids':
                text = medoids_to_absolute_coordinates(st, med)
                ctx.check(text == rows[name][2], 'absolute coordinates of medoids')
            # report of the partition
            found = glob.glob('outputs/**/clustering__{}.csv'.format(name), recursive=True)
            ctx.check(len(found) == 1, 'reports of {}: {}'.format(name, found))
            with open(found[0], newline='') as f:
                rep = list(csv.reader(f, delimiter=' ', quotechar='|'))[1:]
            ctx.check([(int(r[0]), int(r[1])) for r in rep] == [(i, lab.count(i)) for i in range(part.k)],
                      'members in the report of {}'.format(name))
            ctx.check(all(abs(float(r[2]) - lab.count(i) * 100.0 / n) <= 0.0501 for i, r in enumerate(rep)), 'coverage')
            ctx.step(3)
            ctx.state(spec['region'], name, run_no)
    medoid_distances.do_medoid_distances(args, logger)
    for name, part in expected.items():
        found = glob.glob('outputs/**/{}/medoid_distances.csv'.format(name), recursive=True)
        ctx.check(len(found) == 1, 'medoid distances of {}'.format(name))
        with open(found[0], newline='') as f:
            rows = list(csv.reader(f, delimiter=' ', quotechar='|'))[1:]
        med = [p.x * 10 + p.y for p in part.medoids]
        got = np.array([[float(v) for v in r[1:]] for r in rows])
        ctx.check(np.abs(got - mat[np.ix_(med, med)]).max() <= 0.00051, 'distances between medoids of {}'.format(name))
        ctx.step()
        ctx.outcome(name)
    ctx.check(raises(lambda: suite.retrieve_suite_result_csv('nowhere', md, dist), ValueError), 'missing analysis')
