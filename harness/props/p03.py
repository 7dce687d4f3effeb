"""Terrain multiplier equals its definition, in all 8 directions."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, ref, tiles
from harness.core import require
from terrain.terrain_mult import terrain

ID = 'P03'
QUICK = 2200
THOROUGH = 9000
RULE = ('A case is a land cover tile (shape, cell size 8 to 1500 m, place, '
        'data type, classes some of which are unlisted, clip extent) and a '
        'terrain table, run through terrain() for 8 directions and compared '
        'with the mean of the upwind cells computed by shifted sums. '
        'Non-trivial: at least two different initial multipliers and at '
        'least one direction in which the average differs from the cell '
        'itself.')
ASSUMPTIONS = ['a distance that is within 0.03 per cent of the limit where '
               'rounding gives another number of cells may be either']


@st.composite
def strategy(draw, tier):
    place = draw(tiles.place(max_size=34 if tier == 'quick' else 48))
    table = draw(gen.table_spec(draw(st.sampled_from([3, 3, 2, 1]))))
    # one class may be missing from the table
    unlisted = draw(st.sampled_from([0, 0, 1, 2]))
    return {
        'place': place, 'table': table, 'unlisted': unlisted,
        'classes': draw(gen.class_spec(place['rows'], place['cols'],
                                       len(table) + unlisted)),
        'dtype': draw(st.sampled_from(['int32', 'float32', 'int16'])),
        'name': draw(st.sampled_from(['lc', 'e145.0000s20.0000',
                                      'e-12.5s-3.25'])),
    }


def categories(case):
    values = [row[0] for row in case['table']]
    extra = [v for v in range(701, 710)][:case['unlisted']]
    return np.array(values + extra)


def check(case, ctx):
    p = case['place']
    classes = categories(case)[gen.build_classes(case['classes'])]
    if case['dtype'] == 'uint8':
        classes = classes % 256
    geo.set_config(ctx, case['table'])
    out = ctx.path('out')
    tiles.make_folders(out)
    path = os.path.join(out, case['name'] + '.img')
    x0, y0, pw, ph = tiles.geometry(p)
    geo.write_raster(path, classes, x0, y0, pw, ph, case['dtype'])
    g = tiles.width(p)

    want = {}
    for d in geo.DIRECTIONS:
        want[d] = ref.terrain_multipliers(classes, case['table'], d, g)
    terrain(path, tiles.extent(p))

    files = sorted(os.listdir(os.path.join(out, 'terrain')))
    if not want['n']:
        ctx.label('no class in tile')
        require(files == [], 'output for a tile without any class: %s', files)
        return
    require(files == sorted('%s_mz_%s.nc' % (case['name'], d)
                            for d in geo.DIRECTIONS),
            'terrain folder holds %s', files)
    w = ref.terrain_choices('n', g)[0]
    ctx.label('avg %s' % ('0' if w[0] == 0 else '1-3' if w[0] < 4 else '4+'),
              'lag %s' % ('0' if w[1] == 0 else '1-3' if w[1] < 4 else '4+'),
              'lag > rows' if w[1] > p['rows'] else
              'avg + lag > rows' if sum(w) > p['rows'] else 'inside')
    moved = False
    for d in geo.DIRECTIONS:
        got, lat, lon = geo.read_nc(os.path.join(
            out, 'terrain', '%s_mz_%s.nc' % (case['name'], d)), 'Mz')
        tiles.check_coordinates(p, lat, lon, 'terrain ' + d)
        best = None
        for choice in want[d]:
            expected = tiles.clipped(p, choice)
            require(got.shape == expected.shape, 'terrain %s has shape %s',
                    d, got.shape)
            ok = geo.close(got, expected, 2e-5)
            if best is None or ok.all():
                best = ok, expected
        ok, expected = best
        ctx.label('rounding undecided' if len(want[d]) > 1 else '')
        want[d] = want[d][0]
        require(ok.all(), 'terrain multiplier %s: %s', d,
                tiles.describe(got, expected, ok)
                if not ok.all() else '')
        init = np.array([ref.mz_of_roughness(r[1]) for r in case['table']] +
                        [1.0] * 9)
        moved = moved or (np.abs(
            np.where(np.isnan(want[d]), 1, want[d]) -
            init[gen.build_classes(case['classes'])]) > 1e-4).any()
    ctx.label('missing cells' if np.isnan(want['n']).any() else '')
    ctx.nontrivial(moved)
