"""Conservatism and Tasmania adjustments are exact and local."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, tiles
from harness.core import require
from topographic.topo_mult import remove_conservatism, tasmania, topomult

ID = 'P10'
QUICK = 16000
THOROUGH = 60000
RULE = ('A case is an array of multipliers (with the limits 1 and 1.4, values '
        'next to them and missing ones) and of elevations around 500 m; or a '
        'level or hilly tile at the border of the Tasmanian area, run whole '
        'through topomult() at its place and at a place that is certainly '
        'outside. Non-trivial: values on both sides of a limit.')
ASSUMPTIONS = ['a tile starts where its upper left corner lies']


VALUES = st.one_of(
    gen.rounded(0.5, 2, 3), gen.floats(1.0, 1.71),
    st.sampled_from([1.0, 1.4, 1.71, 0.999999, 1.000001, 1.399999, 1.400001,
                     0.0, 1.3999999999999999, float(np.nextafter(1, 2))]))
HEIGHTS = st.one_of(
    gen.rounded(-50, 1600, 1), gen.rounded(400, 9000, 1),
    st.sampled_from([500.0, 500.0001, 499.9999, 500.5, 501.0, 1500.0]))


@st.composite
def strategy(draw, tier):
    if draw(st.sampled_from([False] * 9 + [True])):
        p = draw(tiles.place(lo=20, hi=200, max_size=10, min_size=2))
        p['x0'] = draw(st.one_of(gen.rounded(141, 149, 2), st.sampled_from(
            [143.0, 143.0001, 142.9999, 143.5])))
        p['y0'] = draw(st.one_of(gen.rounded(-44, -38, 2), st.sampled_from(
            [-40.0, -40.0001, -39.9999, -40.5])))
        p['pw'] = p['ph'] = 0.0005
        return {'tile': True, 'place': p,
                'level': draw(HEIGHTS),
                'split': draw(st.integers(0, p['cols'])),
                'other': draw(HEIGHTS)}
    rows = draw(st.integers(1, 6))
    cols = draw(st.integers(1, 6))
    n = rows * cols
    return {'tile': False, 'rows': rows, 'cols': cols,
            'values': draw(st.lists(VALUES, min_size=n, max_size=n)),
            'heights': draw(st.lists(HEIGHTS, min_size=n, max_size=n)),
            'missing': draw(st.lists(st.integers(0, n - 1), max_size=2))}


def check_arrays(case, ctx):
    shape = (case['rows'], case['cols'])
    m = np.array(case['values'], float).reshape(shape)
    h = np.array(case['heights'], float).reshape(shape)
    h.flat[case['missing']] = np.nan
    out = np.array(remove_conservatism(m.copy()))
    require(out.shape == shape, 'shape %s', out.shape)
    for i in np.ndindex(*shape):
        v = m[i]
        want = (0.9 * v if v >= 1.4 else v * (1.25 - 0.25 * v) if v > 1
                else v)
        require(abs(out[i] - want) < 1e-9, 'remove_conservatism of %r is %r, '
                'not %r', v, out[i], want)
        require(out[i] <= v + 1e-12, 'remove_conservatism raises %r to %r', v,
                out[i])
    order = np.argsort(m, axis=None)
    steps = np.diff(out.flat[order])
    require((steps >= -1e-9).all(), 'remove_conservatism reorders cells')

    out = np.array(tasmania(m.copy(), h.copy()))
    for i in np.ndindex(*shape):
        want = m[i] * (1 + 0.00015 * h[i]) if h[i] > 500 else m[i]
        require(abs(out[i] - want) < 1e-9, 'tasmania of %r at elevation %r is '
                '%r, not %r', m[i], h[i], out[i], want)
    ctx.label('arrays', 'limit 1.4' if (m == 1.4).any() else '',
              'height 500' if (h == 500).any() else '')
    ctx.nontrivial((m > 1.4).any() and (m < 1.4).any() or
                   (h > 500).any() and (h <= 500).any())


def run_tile(ctx, name, p, x0, y0, dem):
    out = ctx.path(name)
    tiles.make_folders(out)
    path = geo.write_raster(os.path.join(out, 'lc_dem.img'), dem, x0, y0,
                            p['pw'], p['ph'])
    topomult(path, geo.extent_of(x0, y0, p['pw'], p['ph'], 0, 0, p['cols'],
                                 p['rows']))
    return {d: geo.read_nc(os.path.join(
        out, 'topographic', 'lc_mt_%s.nc' % d), 'Mt')[0]
        for d in geo.DIRECTIONS}


def check_tile(case, ctx):
    p = case['place']
    geo.set_config(ctx, [[1, 0.02, 100]])
    dem = np.full((p['rows'], p['cols']), float(case['level']))
    dem[:, case['split']:] = min(case['other'], case['level'] + 9) \
        if case['other'] > case['level'] else max(case['other'],
                                                  case['level'] - 9)
    # no climb of 10 m, so the multiplier is 1 before the factor
    here = run_tile(ctx, 'a', p, p['x0'], p['y0'], dem)
    dem = dem.astype(np.float32).astype(float)
    want = np.ones(dem.shape)
    inside = p['x0'] > 143.0 and p['y0'] < -40.0
    if inside:
        want[dem > 500] = 1 + 0.00015 * dem[dem > 500]
    pad = np.pad(want, 1, mode='edge')
    want = sum(pad[i:i + p['rows'], j:j + p['cols']]
               for i in range(3) for j in range(3)) / 9
    for d in geo.DIRECTIONS:
        ok = np.abs(here[d] - want) < 2e-5
        require(ok.all(), 'level ground at %s m, %s E %s N, has multiplier '
                '%r for %s, not %r', case['level'], p['x0'], p['y0'],
                float(here[d][~ok][0]) if not ok.all() else 0, d,
                float(want[~ok][0]) if not ok.all() else 0)
    ctx.label('tile in the area' if inside else 'tile outside the area')
    ctx.nontrivial((dem > 500).any())


def check(case, ctx):
    if case['tile']:
        check_tile(case, ctx)
    else:
        check_arrays(case, ctx)
