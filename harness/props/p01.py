"""Tiles partition the DEM, and buffers surround them."""
import math

import numpy as np
from hypothesis import strategies as st

import all_multipliers
from harness import gen, geo
from harness.core import require

ID = 'P01'
QUICK = 20000
THOROUGH = 60000
RULE = ('A case is a raster (size, origin in any hemisphere, square or oblong '
        'cells, from 1/4 cell to 60 tiles) and a buffer from none to several '
        'tiles. The tile limits returned for every tile are compared with a '
        'cell-by-cell count of coverage and with the extents handed to the '
        'tile processing. Non-trivial: more than one tile.')
ASSUMPTIONS = ['a buffer within 1e-9 of a whole number of cells may be taken '
               'as that number or one less']

CELLS = [1.0, 0.5, 0.25, 0.2, 0.1, 0.05, 0.02, 0.01, 0.0125, 0.004,
         1 / 3600., 0.00027777777777778, 0.000278, 1 / 1200., 0.00083333333,
         0.3, 0.7, 1.5, 3.0]


@st.composite
def axis(draw, cell):
    """Number of cells along an axis: near and between whole tiles."""
    step = math.ceil(1 / cell)
    kind = draw(st.sampled_from(['small', 'near', 'any']))
    if kind == 'small':
        return draw(st.integers(1, min(4 * step, 60)))
    if kind == 'near':
        return max(1, draw(st.integers(1, 6)) * step +
                   draw(st.integers(-3, 3)))
    return draw(st.integers(1, 7 * step))


@st.composite
def strategy(draw, tier):
    pw = draw(st.one_of(st.sampled_from(CELLS), gen.rounded(0.0002, 1.2, 6)))
    ph = draw(st.one_of(st.just(pw), st.just(pw), st.sampled_from(CELLS)))
    x0 = draw(st.one_of(gen.rounded(-179, 178, 4), gen.rounded(113, 153, 4),
                        st.integers(-5, 3)))
    y0 = draw(st.one_of(gen.rounded(-60, 60, 4), gen.rounded(-44, -10, 4),
                        st.integers(-3, 5)))
    buffer = draw(st.one_of(
        st.sampled_from([0, 0.01, 0.004, 0.0099, 0.5, 1, 1.3, 2.5]),
        gen.rounded(0, 0.2, 4),
        st.integers(0, 9).map(lambda k: k * pw),
        st.integers(0, 9).map(lambda k: (k + 0.5) * pw)))
    return {'pw': pw, 'ph': ph, 'x0': x0, 'y0': y0, 'buffer': buffer,
            'cols': draw(axis(pw)), 'rows': draw(axis(ph))}


def buffer_cells(buffer, cell):
    q = buffer / cell
    return {int(math.floor(q - 1e-9)), int(math.floor(q)),
            int(math.floor(q + 1e-9))} - {-1}


def vrt(ctx, case):
    path = ctx.path('dem.vrt')
    with open(path, 'w') as f:
        f.write('<VRTDataset rasterXSize="%d" rasterYSize="%d">'
                '<GeoTransform>%r, %r, 0, %r, 0, %r</GeoTransform>'
                '<VRTRasterBand dataType="Float32" band="1"/></VRTDataset>'
                % (case['cols'], case['rows'], float(case['x0']),
                   float(case['pw']), float(case['y0']), -float(case['ph'])))
    return path


def axis_check(what, n, cell, origin, buffer, plain, padded):
    """
    plain, padded: sets of (start, end) of the tiles along an axis without
    and with buffer
    """
    spans = sorted(plain)
    require(spans[0][0] == 0 and spans[-1][1] == n,
            'tiles cover %s %s to %s of %s', what, spans[0][0], spans[-1][1],
            n)
    for a, b in zip(spans, spans[1:]):
        require(a[1] == b[0], 'tiles %s and %s of %s do not join', a, b, what)
    longest = math.ceil(1 / cell)
    for i, (a, b) in enumerate(spans):
        require(a < b, 'empty tile %s in %s', (a, b), what)
        require(b - a <= longest, 'tile of %s %s for at most %s', b - a, what,
                longest)
        require(i == len(spans) - 1 or (b - a + 1) * cell >= 1 - 1e-9,
                'tile of only %s %s', b - a, what)
    for (a, b), (c, d) in padded.items():
        ok = any(c == max(0, a - k) and d == min(n, b + k) for k in buffer)
        require(ok, '%s %s to %s with a buffer of %s are %s to %s of %s',
                what, a, b, sorted(buffer), c, d, n)


def check(case, ctx):
    rows, cols = case['rows'], case['cols']
    pw, ph, x0, y0 = case['pw'], case['ph'], case['x0'], case['y0']
    grid = all_multipliers.TileGrid(case['buffer'], vrt(ctx, case))
    tiles = all_multipliers.get_tiles(grid)
    xs, ys = {}, {}
    seen = set()
    names = set()
    for k, (name, buffered, extent) in enumerate(tiles):
        limits = [int(v) for v in grid.get_gridlimit(k)]
        outer = [int(v) for v in grid.get_gridlimit_buffer(k)]
        for cells, ext, what in ((limits, extent, 'tile'),
                                 (outer, buffered, 'buffered tile')):
            want = geo.extent_of(x0, y0, pw, ph, cells[0], cells[2],
                                 cells[1], cells[3])
            err = [abs(a - b) / c for a, b, c in
                   zip(ext, want, (pw, ph, pw, ph))]
            require(max(err) < 1e-4, '%s %d of cells %s has extent %s', what,
                    k, cells, ext)
        x, y = tuple(limits[:2]), tuple(limits[2:])
        require(xs.get(x, tuple(outer[:2])) == tuple(outer[:2]) and
                ys.get(y, tuple(outer[2:])) == tuple(outer[2:]),
                'tile %d of cells %s has an uneven buffer %s', k, limits,
                outer)
        xs[x], ys[y] = tuple(outer[:2]), tuple(outer[2:])
        require((x, y) not in seen, 'two tiles of cells %s', limits)
        seen.add((x, y))
        # the name
        require('_' not in name and '/' not in name, 'name %s', name)
        require(name not in names, 'two tiles with the name %s', name)
        names.add(name)
        require(name[0] == 'e' and 's' in name, 'name %s', name)
        lon, lat = name[1:].split('s')
        require(abs(float(lon) - extent[0]) < 0.0101 and
                abs(-float(lat) - extent[1]) < 0.0101,
                'tile at %s is named %s', extent[:2], name)
    require(len(seen) == len(xs) * len(ys), '%d tiles in %d x %d', len(seen),
            len(xs), len(ys))
    axis_check('columns', cols, pw, x0, buffer_cells(case['buffer'], pw),
               set(xs), xs)
    axis_check('rows', rows, ph, y0, buffer_cells(case['buffer'], ph),
               set(ys), ys)
    ctx.count('tiles', len(tiles))
    last = sorted(xs)[-1]
    thin = last[1] - last[0] < max(buffer_cells(case['buffer'], pw))
    ctx.label('one tile' if len(tiles) == 1 else 'several tiles',
              'last tile thinner than buffer' if thin else '',
              'oblong cells' if pw != ph else '',
              'buffer' if case['buffer'] else 'no buffer',
              'north' if y0 > 0 else 'south', 'west' if x0 < 0 else 'east')
    ctx.nontrivial(len(tiles) > 1)
