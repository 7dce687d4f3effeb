"""Clipping to a tile extent keeps each value at its coordinates."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, geo
from harness.core import require
from utilities.nctools import clip_array, get_lat_lon

ID = 'P12'
QUICK = 40000
THOROUGH = 300000
RULE = ('A case is an array at any place and resolution, a window of its '
        'cells, and floating point error in the extent of the window. Clipped '
        'values and coordinates are compared with the cells of the window, '
        'each of which holds its own number. Non-trivial: the window is not '
        'the whole array.')
ASSUMPTIONS = ['the error of an extent is at most 0.01 cell']


@st.composite
def strategy(draw, tier):
    rows = draw(st.one_of(st.integers(1, 12), gen.number(1, 400, 3700)))
    cols = draw(st.one_of(st.integers(1, 12), gen.number(1, 400, 3700)))
    pw = draw(st.one_of(st.sampled_from([0.00027777777777778, 1 / 3600., 0.25,
                                         0.001, 0.0025, 0.1, 1.0, 0.000278]),
                        gen.rounded(0.0001, 0.5, 6)))
    ph = draw(st.one_of(st.just(pw), gen.rounded(0.0001, 0.5, 6)))
    r0 = draw(st.integers(0, rows - 1))
    c0 = draw(st.integers(0, cols - 1))
    return {'rows': rows, 'cols': cols, 'pw': pw, 'ph': ph,
            'x0': draw(st.one_of(gen.rounded(-180, 180, 6),
                                 st.integers(-180, 180),
                                 gen.floats(-180, 180))),
            'y0': draw(st.one_of(gen.rounded(-89, 89, 6),
                                 st.integers(-89, 89),
                                 gen.floats(-89, 89))),
            'window': [r0, c0, draw(st.integers(r0 + 1, rows)),
                       draw(st.integers(c0 + 1, cols))],
            'noise': [draw(st.integers(-8, 8)) for _ in range(4)],
            'cells': draw(st.booleans()), 'ints': draw(st.booleans())}


def check(case, ctx):
    rows, cols = case['rows'], case['cols']
    x0, y0, pw, ph = case['x0'], case['y0'], case['pw'], case['ph']
    r0, c0, r1, c1 = case['window']
    data = np.arange(rows * cols, dtype=np.int32 if case['ints'] else float)
    data = data.reshape(rows, cols)
    extent = geo.extent_of(x0, y0, pw, ph, c0, r0, c1, r1)
    if case['cells']:
        # up to a hundredth of a cell
        extent = tuple(e + n * 0.001 * c for e, n, c in
                       zip(extent, case['noise'], (pw, ph, pw, ph)))
    else:
        # a few units in the last place
        extent = tuple(e + n * abs(np.spacing(e)) for e, n in
                       zip(extent, case['noise']))
    out = np.asarray(clip_array(data, x0, -y0, pw, ph, extent))
    want = data[r0:r1, c0:c1]
    require(out.shape == want.shape, 'window %s of %s x %s cells gives shape '
            '%s', case['window'], rows, cols, out.shape)
    require((out == want).all(), 'window %s of %s x %s cells starts at cell '
            '%s', case['window'], rows, cols,
            list(divmod(int(out.flat[0]), cols)))
    lon, lat = get_lat_lon(extent, pw, ph)
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    require(lon.shape == (c1 - c0,) and lat.shape == (r1 - r0,),
            '%s longitudes and %s latitudes for %s x %s cells', lon.shape,
            lat.shape, r1 - r0, c1 - c0)
    want_lon = x0 + (np.arange(c0, c1) + 0.5) * pw
    want_lat = y0 - (np.arange(r0, r1) + 0.5) * ph
    tol = 0.0081 if case['cells'] else 1e-6
    err_lon = np.abs(lon - want_lon).max() / pw
    err_lat = np.abs(lat - want_lat).max() / ph
    require(err_lon < tol and err_lat < tol, 'coordinates are off by %s and '
            '%s cells', err_lon, err_lat)
    ctx.label('off by part of a cell' if case['cells'] else 'rounding only',
              'one row or column' if 1 in want.shape else '')
    ctx.nontrivial(want.shape != data.shape)
