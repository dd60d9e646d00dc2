'''
C17 stored partitions are transparent. Every history of up to 3 (thorough 4) clusterings over a set of configurations,
regions, distance measures, homes and medoid requests, with restarts, deleted files and crashes while storing (the
file cut at any byte, or missing) in between: each answer equals the one computed without any
storage, and what is stored can be loaded again.
'''
import itertools
import os
import pickle
import shutil

import numpy as np

from spta.clustering.factory import ClusteringFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import raises

TECHNIQUE = 'exhaustive enumeration of request histories with crash points on real files, compared with uncached results'
LEVEL_NOTE = ('15 requests (configuration x region x measure x home x medoids), all histories of length <= 3 '
              '(quick: length 3 over 8 requests), every truncation point of every stored file; up to 520 points and 260 clusters; '
              'file contents between crashes are only those the code itself wrote or prefixes of them.')

# (clustering, region, measure, home, with_medoids)
KM = dict(k=2, random_seed=0)
REQ = [
    (('k', dict(k=2, random_seed=0)), 'a', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0)), 'a', 'dtw', 'h1', False),
    (('k', dict(k=2, random_seed=0)), 'b', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=4)), 'a', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0)), 'a', 'spatial', 'h1', True),
    (('r', dict(k=2)), 'a', 'dtw', 'h1', True),
    (('r', dict(k=2)), 'a', 'dtw', 'h1', False),
    (('k', dict(k=2, random_seed=0)), 'a2', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0)), 'a', 'dtw', 'h2', True),
    (('k', dict(k=3, random_seed=0)), 'a', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0, initial_medoids=[5, 0])), 'a', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0, initial_medoids=[5, 0], tol=1e9)), 'a', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0, mode='robust')), 'a', 'dtw', 'h1', True),
    (('r', dict(k=3)), 'a', 'dtw', 'h1', True),
    (('k', dict(k=2, random_seed=0)), 'ay', 'dtw', 'h1', True),
]
SAME = (0, 7, 8, 14)    # one clustering: region, scaled region, another home, other years

CHANGE = (0, 1, 3, 8, 9, 10, 12)     # requests whose region gets other data in 'changed'

MUTS = ['none', 'delete', 'cut0', 'cuthalf', 'cutlast']


def metadatas():
    return {
        'a': SpatioTemporalRegionMetadata('a', Region(0, 2, 0, 3), 2015, 2015, 1, scaled=False),
        'b': SpatioTemporalRegionMetadata('b', Region(2, 4, 2, 5), 2015, 2015, 1, scaled=False),
        'ay': SpatioTemporalRegionMetadata('a', Region(0, 2, 0, 3), 2014, 2014, 1, scaled=False),
        'a2': SpatioTemporalRegionMetadata('a', Region(0, 2, 0, 3), 2015, 2015, 1, scaled=True),
    }


def cases(tier):
    for i in range(len(REQ)):
        yield {'m': 'cut', 'req': i}
    for a in range(len(REQ)):
        for b in range(len(REQ)):
            yield {'m': 'hist', 'reqs': [a, b], 'muts': [0, 1]}
    n = 8 if tier == 'quick' else len(REQ)
    for a in range(n):
        for b in range(n):
            yield {'m': 'hist3', 'reqs': [a, b], 'n': n, 'muts': MUTS if tier != 'quick' else ['none', 'cuthalf']}
    for kind, k in (('k', 3), ('k', 12), ('k', 130), ('k', 258), ('r', 12), ('r', 130), ('r', 260)):
        yield {'m': 'big', 'kind': kind, 'k': k}
    for a, b in itertools.product(SAME, repeat=2):
        yield {'m': 'same', 'reqs': [a, b]}
    for a in CHANGE:
        yield {'m': 'changed', 'a': a, 'len': 4 if tier == 'quick' else 6}
    if tier != 'quick':
        for a, b in itertools.product(range(8), repeat=2):
            yield {'m': 'hist4', 'reqs': [a, b]}


def dataset(flip):
    '''Level and form of the series vary independently, so scaling and the year change the clusters.'''
    s = np.arange(365)
    out = np.zeros((365, 4, 5))
    for x, y in lib.points(4, 5):
        u, v = (3 - x, 4 - y) if flip else (x, y)
        level = 40 * ((u * 3 + v * 2) % 5 >= 2)
        form = (s % 7) * 1.0 if (u + v * v) % 3 == 1 else 9.0 * (s > 100 + 3 * v)
        out[:, x, y] = level + form * (1 + 0.05 * u) + 0.3 * v + 0.01 * (s * (u + 2) % (5 + v))
    return out


_world = {}


def world(ctx):
    '''A directory with the dataset and distance matrices; fresh homes for each history.'''
    if not _world:
        d = ctx.fresh_dir()
        ctx.last_dir = None
        fx.write_raw(dataset(False))
        fx.write_raw(dataset(True), ys=2014, ye=2014)
        mds = metadatas()
        _world['regions'], _world['expected'] = {}, {}
        for name, md in mds.items():
            st = md.create_instance()
            _world['regions'][name] = st
            np.save(md.distances_filename, DistanceByDTW().compute_distance_matrix(st.as_2d))
        _world['dir'] = d
        os.chdir(d)
        for i in range(len(REQ)):
            _world['expected'][i] = ask(i, store=False)
        vals = [repr(v) for v in _world['expected'].values()]
        ctx.check(len(set(vals)) >= 6, 'model: the requests are not distinguishable')
        ctx.check(len({vals[i] for i in (0, 2, 7, 14)}) == 4, 'model: the regions are not distinguishable')
    os.chdir(_world['dir'])
    wipe()


def wipe():
    for h in ('h1', 'h2', 'pickle'):
        shutil.rmtree(os.path.join(_world['dir'], h), ignore_errors=True)


def algorithm(i):
    (kind, params), region, measure, home, med = REQ[i]
    md = KmedoidsClusteringMetadata(**params) if kind == 'k' else RegularClusteringMetadata(**params)
    dist = DistanceByDTW() if measure == 'dtw' else DistanceBySpatialDTW(5000.0)
    return ClusteringFactory(dist).instance(md)


class Algorithms:
    '''One instance for each clustering and measure: the region and the home change between its uses.'''
    def __init__(self):
        self.made = {}

    def get(self, i):
        key = (repr(REQ[i][0]), REQ[i][2])
        if key not in self.made:
            self.made[key] = algorithm(i)
        return self.made[key]


def ask(i, store=True, algo=None):
    (kind, params), region, measure, home, med = REQ[i]
    algo = algo or algorithm(i)
    st = _world['regions'][region]
    part = algo.partition(st, with_medoids=med, pickle_home=home if store else None)
    lab = part.membership_of_point_indices(list(range(st.x_len * st.y_len)))
    return (part.k, lab, [(int(p.x), int(p.y)) for p in part.medoids] if med else None)


def stored():
    out = []
    for h in ('h1', 'h2', 'pickle'):
        for base, _, files in os.walk(os.path.join(_world['dir'], h)):
            out += [os.path.join(base, f) for f in files]
    return sorted(out)


def mutate(kind):
    for f in stored():
        size = os.path.getsize(f)
        if kind == 'delete':
            os.remove(f)
        elif kind == 'cut0':
            os.truncate(f, 0)
        elif kind == 'cuthalf':
            os.truncate(f, size // 2)
        elif kind == 'cutlast':
            os.truncate(f, size - 1)


def check_ask(ctx, i, what, algo=None):
    got = ask(i, algo=algo)
    want = _world['expected'][i]
    ctx.check(got == want, '{}: request {} answered {} instead of {}'.format(what, REQ[i], got, want))
    ctx.step()


def big(spec, ctx):
    '''Many points and many clusters.'''
    ctx.fresh_dir()
    kind, k = spec['kind'], spec['k']
    x, y = (26, 20) if kind == 'r' else (12, 22)
    n = x * y
    pos = np.array([((i * 53 + i * i) % 307) * 0.5 + 0.01 * i for i in range(n)])
    md = SpatioTemporalRegionMetadata('big', Region(3, 3 + x, 5, 5 + y), 2015, 2015, 1, scaled=False)
    st = SpatioTemporalRegion(np.array([pos, -pos]).reshape(2, x, y), md)
    cmd = KmedoidsClusteringMetadata(k, random_seed=1) if kind == 'k' else RegularClusteringMetadata(k)

    def get(home):
        dist = DistanceByDTW()
        dist.distance_matrix = np.abs(np.subtract.outer(pos, pos))
        part = ClusteringFactory(dist).instance(cmd).partition(st, with_medoids=True, pickle_home=home)
        return part.k, [int(v) for v in part.membership_of_point_indices(list(range(n)))], \
            [(int(p.x), int(p.y)) for p in part.medoids], \
            [int(part.cluster_len(c)) for c in range(k)], \
            sorted(int(c) for c in part.find_indices_of_clusters_intersecting_with(Region(0, x, 0, y)))
    want = get(None)
    ctx.check(want[0] == k and set(want[1]) == set(range(k)) and want[4] == list(range(k)) and
              want[3] == [want[1].count(c) for c in range(k)], 'clusters of {}'.format(spec))
    ctx.check(all(want[1][q[0] * y + q[1]] == c for c, q in enumerate(want[2])), 'medoids of {}'.format(spec))
    for step in ('stored', 'loaded', 'loaded again'):
        ctx.check(get('h1') == want, '{}: {} partition differs'.format(spec, step))
        ctx.step()
    ctx.state('big', kind, k)
    ctx.outcome(kind, k)


def changed(spec, ctx):
    '''The data of the region change when nothing (readable) is stored: deleted, or cut, before the next request.'''
    a = spec['a']
    regions = _world['regions']
    name = REQ[a][1]
    first = regions[name]
    v = np.array(first.as_numpy)
    mdim = np.load(first.region_metadata.distances_filename)
    other = SpatioTemporalRegion(v[:, ::-1, ::-1].copy(), first.region_metadata)
    try:
        worlds = []
        for st in (first, other):
            np.save(first.region_metadata.distances_filename, DistanceByDTW().compute_distance_matrix(st.as_2d))
            regions[name] = st
            worlds.append((st, np.load(first.region_metadata.distances_filename), ask(a, store=False)))
        ctx.check(worlds[0][2] != worlds[1][2], 'model: the data make no difference')
        for mut in ('delete', 'cut0', 'cuthalf', 'cutlast'):
            for reuse in (False, True):
                for seq in itertools.product((0, 1), repeat=spec['len']):
                    wipe()
                    make = Algorithms().get if reuse else algorithm
                    for pos, which in enumerate(seq):
                        if pos and seq[pos - 1] != which:
                            mutate(mut)
                        regions[name], matrix, want = worlds[which]
                        np.save(first.region_metadata.distances_filename, matrix)
                        algo = make(a)
                        algo.distance_measure.distance_matrix = matrix.copy()
                        got = ask(a, algo=algo)
                        ctx.check(got == want, '{} of {} before each change, data {} (same instances: {}): answered {} instead of {}'.format(
                            mut, REQ[a], seq[:pos + 1], reuse, got, want))
                        ctx.step()
                    ctx.state('changed', a, mut, reuse, seq)
    finally:
        regions[name] = first
        np.save(first.region_metadata.distances_filename, mdim)


def run(spec, ctx):
    if spec['m'] == 'big':
        return big(spec, ctx)
    world(ctx)
    if spec['m'] == 'changed':
        return changed(spec, ctx)
    if spec['m'] == 'cut':
        i = spec['req']
        home = REQ[i][3]
        check_ask(ctx, i, 'first')
        files = stored()
        ctx.check(len(files) == 1 and files[0].startswith(os.path.join(_world['dir'], home)),
                  'stored files: {}'.format(files))
        with open(files[0], 'rb') as f:
            content = f.read()
        # loads back with an equal algorithm, in the same home only
        md = metadatas()[REQ[i][1]]
        algo = algorithm(i)
        part = algo.load_previous_partition(md, home)
        ctx.check(part.membership_of_point_indices(list(range(6))) == _world['expected'][i][1], 'loaded')
        ctx.check(algo.try_load_previous_partition(md, 'h3') is None, 'loaded from another home')
        ctx.check(raises(lambda: algo.load_previous_partition(md, 'h3')), 'load without a stored partition')
        for cut in range(len(content)):
            with open(files[0], 'wb') as f:
                f.write(content[:cut])
            ctx.check(algorithm(i).try_load_previous_partition(md, home) is None,
                      'a file cut at byte {} was accepted'.format(cut))
            check_ask(ctx, i, 'cut at {}'.format(cut))
            check_ask(ctx, i, 'after the recovery of a cut at {}'.format(cut))
            with open(files[0], 'rb') as f:
                again = f.read()
            ctx.check(pickle.loads(again).membership_of_point_indices(list(range(6))) ==
                      _world['expected'][i][1], 'not stored again')
            ctx.state('cut', i, cut)
        return
    a, b = spec['reqs']
    if spec['m'] == 'hist':
        for mut in MUTS:
            for reuse in (False, True):
                wipe()
                make = Algorithms().get if reuse else algorithm
                check_ask(ctx, a, 'empty homes', make(a))
                mutate(mut)
                check_ask(ctx, b, 'after {} {} (same instances: {})'.format(REQ[a], mut, reuse), make(b))
                check_ask(ctx, a, 'again after {} {} {} (same instances: {})'.format(REQ[a], mut, REQ[b], reuse),
                          make(a))
                ctx.state(a, mut, b, reuse)
                ctx.outcome(len(stored()))
        return
    tails = [(c,) for c in range(spec['n'])] if spec['m'] == 'hist3' else \
        list(itertools.product(range(8), repeat=2))
    if spec['m'] == 'same':
        tails = list(itertools.product(SAME, repeat=2))
    for tail in tails:
        for mut in spec.get('muts', ['none']):
            for where in range(1, 2 + len(tail)) if mut != 'none' else [1, 0]:
                wipe()
                seq = (a, b) + tail
                make = Algorithms().get if where == 0 else algorithm
                for pos, r in enumerate(seq):
                    if pos == where:
                        mutate(mut)
                    check_ask(ctx, r, 'history {} ({} before {})'.format([REQ[q] for q in seq[:pos]], mut, where),
                              make(r))
                ctx.state(seq, mut, where)
