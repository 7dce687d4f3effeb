"""Topographic multiplier tiles equal the definition, in all 8 directions."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, ref, tiles
from harness.core import require
from topographic.make_path import make_path
from topographic.topo_mult import topomult

ID = 'P09'
QUICK = 2000
THOROUGH = 12000
RULE = ('A case is a DEM tile (shape, cell size 8 to 400 m, place inside and '
        'outside of Tasmania, relief of several kinds, no-data, data types, '
        'clip extent), run through topomult() for 8 directions and compared '
        'cell by cell with the definition; and the shape of an array whose '
        'lines along the wind are compared with geometry. Non-trivial: some '
        'multiplier differs from 1.')
ASSUMPTIONS = ['the bounds of the reference differ where a condition of the '
               'definition is met to within 1e-9']


@st.composite
def strategy(draw, tier):
    dtype = draw(st.sampled_from(['float32', 'float32', 'int32']))
    p = draw(tiles.place(hi=400.0, max_size=26 if tier == 'quick' else 40))
    if draw(st.sampled_from([False, False, True])):
        # around Tasmania
        p['x0'] = draw(st.one_of(gen.rounded(142.5, 149, 2),
                                 st.sampled_from([143, 143.01, 142.99])))
        p['y0'] = draw(st.one_of(gen.rounded(-44, -39, 2),
                                 st.sampled_from([-40, -40.01, -39.99])))
    nr = draw(st.integers(1, 14))
    nc = draw(st.integers(1, 14))
    return {'place': p,
            'dem': draw(gen.dem_spec(p['rows'], p['cols'],
                                     kinds=['hills', 'hills', 'smooth',
                                            'noise', 'plane', 'steps',
                                            'flat'])),
            'holes': draw(st.lists(st.tuples(st.integers(0, p['rows'] - 1),
                                             st.integers(0, p['cols'] - 1)),
                                   max_size=4)) if draw(st.booleans()) else [],
            'dtype': dtype, 'nodata': draw(gen.missing_value(dtype)),
            'name': draw(st.sampled_from(['lc', 'e145.0000s20.0000'])),
            'shape': [nr, nc], 'start': draw(st.integers(0, nr * nc - 1)),
            'dir': draw(st.sampled_from(geo.DIRECTIONS))}


def check_path(case):
    """A path is the straight line of cells downwind of its start."""
    nr, nc = case['shape']
    d = case['dir']
    # cells are numbered down the columns
    c, r = divmod(case['start'], nr)
    dr, dc = geo.UPWIND[d]
    want = []
    i, j = r, c
    while 0 <= i < nr and 0 <= j < nc:
        want.append(j * nr + i)
        i, j = i - dr, j - dc
    got = [int(v) for v in make_path(nr, nc, case['start'], d)]
    require(got == want, 'path from %s in %d x %d cells for wind from %s is '
            '%s, not %s', case['start'], nr, nc, d, got, want)


def check(case, ctx):
    check_path(case)
    p = case['place']
    dem = gen.build_dem(case['dem'])
    if case['dtype'] == 'int32':
        dem = np.round(dem)
    dem = dem.astype(case['dtype']).astype(float)
    for r, c in case['holes']:
        dem[r, c] = float(case['nodata'])
    geo.set_config(ctx, [[1, 0.02, 100]])
    out = ctx.path('out')
    tiles.make_folders(out)
    x0, y0, pw, ph = tiles.geometry(p)
    path = geo.write_raster(os.path.join(out, case['name'] + '_dem.img'), dem,
                            x0, y0, pw, ph, case['dtype'],
                            nodata=float(case['nodata'])
                            if case['holes'] else None)
    if case['holes']:
        dem[dem == float(case['nodata'])] = np.nan
        ctx.label('missing elevations')
    g = tiles.width(p)
    in_tasmania = x0 > 143 and -y0 > 40

    topomult(path, tiles.extent(p))

    files = sorted(os.listdir(os.path.join(out, 'topographic')))
    require(files == sorted('%s_mt_%s.nc' % (case['name'], d)
                            for d in geo.DIRECTIONS),
            'topographic folder holds %s', files)
    raised = False
    for d in geo.DIRECTIONS:
        got, lat, lon = geo.read_nc(os.path.join(
            out, 'topographic', '%s_mt_%s.nc' % (case['name'], d)), 'Mt')
        tiles.check_coordinates(p, lat, lon, 'topography ' + d)
        lo, hi = ref.topographic_multiplier(dem, d, g, in_tasmania)
        raised = raised or (np.nan_to_num(hi, nan=1) > 1.001).any()
        lo, hi = tiles.clipped(p, lo), tiles.clipped(p, hi)
        require(got.shape == lo.shape, 'topography %s has shape %s', d,
                got.shape)
        with np.errstate(invalid='ignore'):
            ok = (got >= lo - 3e-5) & (got <= hi + 3e-5)
        ok |= np.isnan(got) & np.isnan(lo)
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            require(False, 'topographic multiplier %s: %d of %d cells '
                    'differ, first %s: got %r, expected %r to %r', d,
                    (~ok).sum(), ok.size, list(map(int, i)), got[i], lo[i],
                    hi[i])
        ctx.count('undecided cells', (hi - lo > 1e-6).sum())
    ctx.label('Tasmania' if in_tasmania else 'mainland',
              'high Tasmania' if in_tasmania and (dem > 500).any() else '',
              case['dem']['kind'])
    ctx.nontrivial(raised)
