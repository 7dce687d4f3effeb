"""Cases made of one tile, shared by the checks of the three multipliers."""
import os

import numpy as np
from hypothesis import strategies as st

from . import env, geo, gen
from .core import require

env.remember_git()

SUBDIRS = ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']


@st.composite
def place(draw, lo=8.0, hi=1500.0, max_size=34, min_size=1):
    """Where a tile lies: shape, cell size, position, clip."""
    rows, cols = draw(gen.shape(max_size, min_size))
    if max(rows, cols) > max_size:
        hi = max(min(hi, 130.0), lo)
    lat = draw(gen.latitudes())
    lon = draw(st.one_of(gen.rounded(113, 153, 2), gen.rounded(-179, 178, 2)))
    metres = draw(st.one_of(
        st.sampled_from([x for x in (10., 25., 27.8, 30., 50., 90., 99., 120.,
                                     250., 1000.) if lo <= x <= hi]),
        gen.rounded(lo, min(hi, 130.0), 1), gen.rounded(lo, hi, 1)))
    size = float('%.6g' % geo.degrees_for(metres, lat))
    ratio = draw(st.sampled_from([1, 1, 1, 0.8, 1.25, 1.6]))
    ph = float('%.6g' % (size * ratio))
    if draw(st.sampled_from([False, False, True])):
        # a little more or less than where a number of cells changes
        limit = draw(st.sampled_from([500, 200, 100]))
        limit /= draw(st.sampled_from([1, 1.414]))
        k = draw(st.integers(1, 60)) / 2
        near = 1 + draw(st.sampled_from([1, -1, 2, -2, 5, -5, 12])) * 8e-4
        if lo <= limit / k * near <= hi:
            now = geo.grid_width(rows, cols, lat, size, ph)
            size = float('%.9g' % (size * limit / k * near / now))
            now = geo.grid_width(rows, cols, lat, size, ph)
            ph = float('%.9g' % (ph + (limit / k * near - now) / now * ph))
            now = geo.grid_width(rows, cols, lat, size, ph)
            size = float('%.9g' % (size + 2 * (limit / k * near - now) / now
                                   * size))
    r0 = draw(st.integers(0, rows - 1)) if draw(st.booleans()) else 0
    c0 = draw(st.integers(0, cols - 1)) if draw(st.booleans()) else 0
    r1 = draw(st.integers(r0 + 1, rows)) if draw(st.booleans()) else rows
    c1 = draw(st.integers(c0 + 1, cols)) if draw(st.booleans()) else cols
    return {'rows': rows, 'cols': cols, 'x0': lon, 'y0': lat, 'pw': size,
            'ph': ph, 'clip': [r0, c0, r1, c1]}


def geometry(p):
    return p['x0'], p['y0'], p['pw'], p['ph']


def extent(p):
    r0, c0, r1, c1 = p['clip']
    return geo.extent_of(p['x0'], p['y0'], p['pw'], p['ph'], c0, r0, c1, r1)


def width(p):
    return geo.grid_width(p['rows'], p['cols'], p['y0'], p['pw'], p['ph'])


def make_folders(root, names=SUBDIRS):
    for name in names:
        os.makedirs(os.path.join(root, name), exist_ok=True)


def check_coordinates(p, lat, lon, what):
    """The coordinates of an output are the centres of its cells."""
    r0, c0, r1, c1 = p['clip']
    want_lon = p['x0'] + (np.arange(c0, c1) + 0.5) * p['pw']
    want_lat = p['y0'] - (np.arange(r0, r1) + 0.5) * p['ph']
    tol = 1e-6 * min(p['pw'], p['ph']) + 1e-10
    require(lon.shape == want_lon.shape and lat.shape == want_lat.shape,
            '%s has %s x %s coordinates for %s x %s cells', what, lat.size,
            lon.size, want_lat.size, want_lon.size)
    require(np.abs(lon - want_lon).max() < tol,
            '%s: longitudes are off by up to %g cells', what,
            np.abs(lon - want_lon).max() / p['pw'])
    require(np.abs(lat - want_lat).max() < tol,
            '%s: latitudes are off by up to %g cells', what,
            np.abs(lat - want_lat).max() / p['ph'])


def describe(got, want, ok):
    """Text of the first cell that differs."""
    bad = np.argwhere(~ok)
    i = tuple(bad[0])
    return '%d of %d cells differ, first %s: got %r, expected %r' % (
        len(bad), ok.size, list(map(int, i)), float(got[i]), float(want[i]))


def clipped(p, array):
    r0, c0, r1, c1 = p['clip']
    return array[r0:r1, c0:c1]
