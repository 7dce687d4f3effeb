"""Slope and aspect class of a DEM are correct."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, ref, tiles
from harness.core import require
from shielding.shield_mult import get_slope_aspect

ID = 'P07'
QUICK = 8000
THOROUGH = 40000
RULE = ('A case is a DEM: either a plane of known gradient and bearing, or '
        'relief of several kinds; at any latitude, with oblong cells, no-data '
        'and different data types, as a file or an open dataset. Slope is '
        'compared with Horn\'s formula (edges repeated) and the aspect class '
        'with the octant of the downhill bearing. Non-trivial: not flat.')
ASSUMPTIONS = ['aspect is not compared within 0.05 degrees of the edge '
               'between two octants, nor where the slope is below 0.01 '
               'degrees']


@st.composite
def strategy(draw, tier):
    p = draw(tiles.place(max_size=24))
    plane = draw(st.booleans())
    case = {'place': p, 'plane': plane,
            'open': draw(st.booleans()),
            'ext': draw(st.sampled_from(['.img', '.tif'])),
            'layout': draw(st.sampled_from(['plain'] * 8 + geo.LAYOUTS)),
            'holes': draw(st.lists(st.tuples(
                st.integers(0, p['rows'] - 1), st.integers(0, p['cols'] - 1)),
                max_size=3))}
    if plane:
        case['slope'] = draw(gen.rounded(0.05, 60, 2))
        case['bearing'] = draw(st.one_of(
            gen.rounded(0, 359.99, 2),
            st.integers(0, 7).map(lambda k: 45.0 * k)))
        case['dtype'] = 'float64'
    else:
        case['dem'] = draw(gen.dem_spec(p['rows'], p['cols']))
        case['dtype'] = draw(st.sampled_from(['float32', 'float64', 'int32',
                                              'int16']))
    case['nodata'] = draw(gen.missing_value(case['dtype']))
    return case


def check(case, ctx):
    p = case['place']
    rows, cols = p['rows'], p['cols']
    xm, ym = ref.pixel_sizes(rows, cols, p['y0'], p['pw'], p['ph'])
    if case['plane']:
        t = math.tan(math.radians(case['slope']))
        b = math.radians(case['bearing'])
        rr, cc = np.mgrid[0:rows, 0:cols]
        # downhill along the bearing
        dem = -t * (math.sin(b) * cc * xm.mean() -
                    math.cos(b) * rr * ym.mean())
        dem = dem - dem.min()
        ctx.label('plane')
    else:
        dem = gen.build_dem(case['dem'])
        if case['dtype'].startswith('int'):
            dem = np.round(dem)
        dem = dem.astype(case['dtype']).astype(float)
        ctx.label(case['dem']['kind'])
    for r, c in case['holes']:
        dem[r, c] = float(case['nodata'])
    nodata = float(case['nodata']) if case['holes'] else None
    path = geo.write_raster(ctx.path('dem' + case['ext']), dem, p['x0'],
                            p['y0'], p['pw'], p['ph'], case['dtype'],
                            nodata=nodata)
    path = geo.lay_out(path, case.get('layout', 'plain'))
    if nodata is not None:
        dem[dem == nodata] = np.nan
        ctx.label('missing elevations')
    slope, bearing = ref.slope_aspect(dem, p['y0'], p['pw'], p['ph'])

    source = geo.gdal.Open(path) if case['open'] else path
    got, aspect = get_slope_aspect(source)
    require(np.shape(got) == (rows, cols) and np.shape(aspect) == (rows, cols),
            'shapes %s and %s for a DEM of %s x %s', np.shape(got),
            np.shape(aspect), rows, cols)
    ok = geo.close(got, slope, 1e-5)
    require(ok.all(), 'slope: %s', tiles.describe(got, slope, ok)
            if not ok.all() else '')
    with np.errstate(invalid='ignore'):
        sure = (slope > 0.01) & (ref.octant_margin(bearing) > 0.05)
    want = ref.octant(bearing)
    ok = (aspect == want) | ~sure
    require(ok.all(), 'aspect class: %s', tiles.describe(
        np.asarray(aspect, float), want.astype(float), ok)
        if not ok.all() else '')
    if case['plane'] and rows > 2 and cols > 2 and \
            abs(xm.max() / xm.min() - 1) < 1e-3:
        # independent of the 3x3 formula: the plane itself
        inner = np.zeros((rows, cols), bool)
        inner[1:-1, 1:-1] = True
        inner &= ~np.isnan(slope)
        if inner.any():
            err = np.abs(got[inner] - case['slope'])
            require(err.max() < 0.05, 'slope of a plane of %s degrees is %s',
                    case['slope'], got[inner][err.argmax()])
            if ref.octant_margin(np.array(case['bearing'])) > 0.2:
                k = int(ref.octant(np.array(case['bearing'])))
                require((np.asarray(aspect)[inner] == k).all(),
                        'a plane facing %s degrees has aspect class %s, not '
                        '%s', case['bearing'],
                        np.unique(np.asarray(aspect)[inner]).tolist(), k)
            ctx.label('inner cells of a plane')
    ctx.count('aspects compared', sure.sum())
    ctx.nontrivial(sure.any())
