'''Builders of real objects from /repo for tiny synthetic configurations.'''
import os

import numpy as np

from spta.region import Point, Region, TimeInterval
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.region.partition import PartitionRegionCrisp
from spta.region.scaling import ScaleFunction

from . import lib


def partition(labels, x_len, y_len, dtype=np.int64):
    lab = np.array(labels, dtype=dtype)
    return PartitionRegionCrisp.from_membership_array(lab, x_len, y_len)


def member_points(labels, x_len, y_len, k):
    return [p for p in lib.points(x_len, y_len) if labels[p[0] * y_len + p[1]] == k]


def scale(region):
    return ScaleFunction(region.x_len, region.y_len).apply_to(region, region.shape[0])


def pts(it):
    return [(int(p.x), int(p.y)) for p in it]


def write_raw(array, name='SouthAmerica', ys=2015, ye=2015, spd=1, raw='raw'):
    os.makedirs(raw, exist_ok=True)
    np.save(os.path.join(raw, '{}_{}_{}_{}spd.npy'.format(name, ys, ye, spd)), array)
