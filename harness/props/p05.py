"""Shielding multiplier equals its definition, in all 8 directions."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, ref, tiles
from harness.core import require
from shielding.shield_mult import shield

ID = 'P05'
QUICK = 2600
THOROUGH = 8000
RULE = ('A case is a land cover tile with a shielding table and a DEM tile of '
        'the same shape (cell size 8 to 400 m, relief of several kinds, '
        'no-data, data types, clip extent), run through shield() for 8 '
        'directions and compared cell by cell with the mean over the upwind '
        'zone, the slope correction and the conservatism. Non-trivial: some '
        'initial factor differs from 1 and some cell has a slope above 3.27 '
        'degrees.')
ASSUMPTIONS = ['cells whose aspect is within 0.05 degrees of the edge '
               'between two octants are not compared, nor those with land '
               'cover that is declared missing in their zone',
               'where 100 m divided by the cell size is within 0.03 per cent '
               'of a whole number, the zone may be that of either size']


@st.composite
def strategy(draw, tier):
    dtype = draw(st.sampled_from(['float32', 'float32', 'int32']))
    p = draw(tiles.place(hi=400.0, max_size=26 if tier == 'quick' else 40))
    table = draw(gen.table_spec(draw(st.sampled_from([3, 3, 2, 1]))))
    unlisted = draw(st.sampled_from([0, 0, 1]))
    return {
        'place': p, 'table': table, 'unlisted': unlisted,
        'classes': draw(gen.class_spec(p['rows'], p['cols'],
                                       len(table) + unlisted)),
        'dem': draw(gen.dem_spec(p['rows'], p['cols'])),
        # a plane of a slope close to a limit
        'tilt': draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(
            st.one_of(gen.rounded(3.2, 3.4, 3), gen.rounded(12.2, 12.4, 3),
                      gen.rounded(0, 20, 2)),
            st.integers(0, 7), gen.rounded(-20, 20, 1)))),
        'holes': draw(st.lists(st.tuples(st.integers(0, p['rows'] - 1),
                                         st.integers(0, p['cols'] - 1)),
                               max_size=4)) if draw(st.booleans()) else [],
        'dtype': dtype, 'nodata': draw(gen.missing_value(dtype)),
        # a class that is declared missing
        'missing': draw(st.sampled_from([None] * 6 + [0, 1, 2])),
        'lc_dtype': draw(st.sampled_from(['int32', 'float32'])),
        'name': draw(st.sampled_from(['lc', 'e145.0000s20.0000'])),
    }


def shield_reference(classes, table, dem, p, direction, g, missing):
    """Multipliers, and the cells that can be compared"""
    init = ref.shielding_initial(classes, table)
    slope, bearing = ref.slope_aspect(dem, p['y0'], p['pw'], p['ph'])
    facing = ref.octant(bearing) == ref.ASPECT[direction]
    with np.errstate(invalid='ignore'):
        unsure = (ref.octant_margin(bearing) < 0.05) & (slope > 3.2)
    unsure |= missing
    found = []
    for size in sorted({int(100.0 / (g * f)) for f in ref.NEAR}):
        mean = init
        if size:
            zone = ref.shielding_zone(direction, size)
            mean = ref.zone_mean(init, zone)
            unsure |= ref.zone_mean(missing * 1.0, zone, 0) > 0
        found.append(ref.shield_combine(mean, slope, facing))
    return found, ~unsure


def tilted(slope, octant, off, p):
    """Plane of a slope in degrees that falls towards a bearing"""
    xm, ym = ref.pixel_sizes(p['rows'], p['cols'], p['y0'], p['pw'], p['ph'])
    bearing = np.radians(45 * octant + off)
    r, c = np.mgrid[0:p['rows'], 0:p['cols']]
    dem = np.tan(np.radians(slope)) * (
        np.cos(bearing) * r * ym.mean() - np.sin(bearing) * c * xm.mean())
    return dem - dem.min()


def check(case, ctx):
    p = case['place']
    values = np.array([r[0] for r in case['table']] + [701])
    classes = values[gen.build_classes(case['classes'])]
    # the values next to a missing cell are not compared
    missing, declared = np.zeros(classes.shape, dtype=bool), None
    if case.get('missing') is not None:
        cell = values[case['missing'] % len(values)]
        if not (classes == cell).all():
            declared, missing = float(cell), classes == cell
            ctx.label('missing land cover' if missing.any() else '')
    dem = gen.build_dem(case['dem'])
    if case['tilt']:
        dem = tilted(*case['tilt'], p)
    dem = np.round(dem) if case['dtype'] == 'int32' else dem
    dem = dem.astype(case['dtype']).astype(float)
    for r, c in case['holes']:
        dem[r, c] = float(case['nodata'])
    geo.set_config(ctx, case['table'])
    out = ctx.path('out')
    tiles.make_folders(out)
    x0, y0, pw, ph = tiles.geometry(p)
    lc = geo.write_raster(os.path.join(out, case['name'] + '.img'), classes,
                          x0, y0, pw, ph, case['lc_dtype'],
                          nodata=declared)
    df = geo.write_raster(os.path.join(out, case['name'] + '_dem.img'), dem,
                          x0, y0, pw, ph, case['dtype'],
                          nodata=float(case['nodata'])
                          if case['holes'] else None)
    if case['holes']:
        dem[dem == float(case['nodata'])] = np.nan
        ctx.label('missing elevations')
    g = tiles.width(p)
    want = {}
    for d in geo.DIRECTIONS:
        want[d] = shield_reference(classes, case['table'], dem, p, d, g,
                                   missing)

    shield(lc, df, tiles.extent(p))

    files = sorted(os.listdir(os.path.join(out, 'shielding')))
    require(files == sorted('%s_ms_%s.nc' % (case['name'], d)
                            for d in geo.DIRECTIONS),
            'shielding folder holds %s', files)
    size = int(100.0 / g)
    ctx.label('zone of %s' % (size if size < 3 else '3+'))
    for d in geo.DIRECTIONS:
        got, lat, lon = geo.read_nc(os.path.join(
            out, 'shielding', '%s_ms_%s.nc' % (case['name'], d)), 'Ms')
        tiles.check_coordinates(p, lat, lon, 'shielding ' + d)
        sure = tiles.clipped(p, want[d][1])
        best = None
        for choice in want[d][0]:
            expected = tiles.clipped(p, choice)
            require(got.shape == expected.shape, 'shielding %s has shape %s',
                    d, got.shape)
            ok = geo.close(got, expected, 3e-5) | ~sure
            if best is None or ok.all():
                best = ok, expected
        ok, expected = best
        require(ok.all(), 'shielding multiplier %s: %s', d,
                tiles.describe(got, expected, ok) if not ok.all() else '')
        ctx.count('cells not compared', (~sure).sum())
    slope, bearing = ref.slope_aspect(dem, p['y0'], p['pw'], p['ph'])
    with np.errstate(invalid='ignore'):
        steep = (slope > 3.27).any()
        ctx.label('steep' if (slope >= 12.3).any() else '',
                  'middle slope' if ((slope > 3.27) & (slope < 12.3)).any()
                  else '')
    init = ref.shielding_initial(classes, case['table'])
    ctx.nontrivial(steep and (init < 1).any())
