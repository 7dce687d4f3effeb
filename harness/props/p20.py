"""Settlement and category of each land use area."""
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

from harness import env, gen, geo, shapes
from harness.core import REPO, require

ID = 'P20'
QUICK = 5000
THOROUGH = 30000
RULE = ('A case is a shapefile of settlements, one of land use areas and '
        'maybe a crop mask, of polygons made of the cells of a grid with any '
        'types and names of columns. The result of pre_process() is compared '
        'with the settlement that has most cells of each area. About one case '
        'in 150 runs the program itself. Non-trivial: an area overlaps a '
        'recognised settlement.')
ASSUMPTIONS = ['of settlement types that cover the same part of an area, or '
               'only touch it, any may be chosen']

SETTLEMENT = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
              'Small Town': 5}
LAND_USE = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
            'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
            'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}


@st.composite
def strategy(draw, tier):
    types = st.one_of(st.sampled_from(sorted(SETTLEMENT)),
                      st.sampled_from(sorted(SETTLEMENT) +
                                      [None, 'Village', 'city', 'CBD',
                                       'Locality', 'Urban Fringe', 'Small',
                                       'City of Perth', 'SMALL TOWN',
                                       'Small Towns', '1', '']))
    uses = st.one_of(st.sampled_from(sorted(LAND_USE)),
                     st.sampled_from(sorted(LAND_USE) +
                                     [None, 'Antarctic', 'residential',
                                      'Water Body', 'Hospital', 'Residential 2',
                                      'None', 'Other Use', '7', '']))
    return {
        'settlements': [{'cells': draw(shapes.cells()), 'type': draw(types)}
                        for _ in range(draw(gen.number(1, 6, 25)))],
        'areas': [{'cells': draw(shapes.cells(kinds=['one', 'one', 'two',
                                                     'hole'])),
                   'use': draw(uses), 'note': draw(st.sampled_from(
                       ['', 'x', None]))}
                  for _ in range(draw(gen.number(1, 7, 30)))],
        'mask': draw(st.one_of(st.none(), shapes.cells())),
        # further shapes of the mask
        'masks': draw(st.one_of(st.just([]), st.lists(shapes.cells(),
                                                      max_size=2))),
        'place': draw(shapes.places),
        'columns': draw(st.sampled_from([['SETTLEMENT', 'MB_CAT16'],
                                         ['TYPE', 'USE'], ['S', 'L'],
                                         ['CLASS', 'CLASS']])),
        # columns that the areas have already, as after an earlier run
        'there': draw(st.lists(st.sampled_from(
            ['CAT int', 'CAT text', 'settlement int', 'settlement text']),
            max_size=2, unique_by=lambda x: x[0])),
        'how': draw(st.sampled_from(['call'] * 159 + ['program']))}


def check(case, ctx):
    place = case['place']
    scol, lcol = case['columns']
    folder = ctx.path('in')
    os.mkdir(folder)
    settlements = shapes.write(
        os.path.join(folder, 's.shp'),
        [(shapes.geometry(s['cells'], place), {scol: s['type'], 'N': i})
         for i, s in enumerate(case['settlements'])],
        {scol: 'str:30', 'N': 'int'})
    fields, there = {lcol: 'str:30', 'ID': 'int', 'NOTE': 'str:5'}, {}
    for name, kind in [x.split() for x in case['there']]:
        name = {'settlement': scol}.get(name, name)
        if name not in fields:
            fields[name] = 'int' if kind == 'int' else 'str:9'
            there[name] = 77 if kind == 'int' else 'earlier'
            ctx.label('a column is there already')
    areas = shapes.write(
        os.path.join(folder, 'l.shp'),
        [(shapes.geometry(a['cells'], place),
          dict({lcol: a['use'], 'ID': i + 10, 'NOTE': a['note']}, **there))
         for i, a in enumerate(case['areas'])], fields)
    crop = 'None'
    inside = np.ones((shapes.N, shapes.N), dtype=bool)
    if case['mask'] is not None:
        masks = [case['mask']] + case.get('masks', [])
        crop = shapes.write(os.path.join(folder, 'm.shp'),
                            [(shapes.geometry(m, place), {'N': i})
                             for i, m in enumerate(masks)], {'N': 'int'})
        m = np.any([shapes.mask(m) for m in masks], axis=0)
        rows, cols = np.where(m)
        inside[:] = False
        inside[rows.min():rows.max() + 1, cols.min():cols.max() + 1] = True
    before = shapes.digest(folder)
    out = ctx.path('out.shp')
    if case['how'] == 'call':
        import pre_process
        pre_process.pre_process(settlements, scol, areas, lcol, crop, out)
    else:
        program(case, ctx, settlements, areas, crop, out)
    require(shapes.digest(folder) == before, 'the input files are changed')

    groups = {}
    for s in case['settlements']:
        key = s['type'] if s['type'] in SETTLEMENT else None
        m = shapes.mask(s['cells']) & inside
        groups[key] = groups.get(key, np.zeros_like(m)) | m
    groups = {k: m for k, m in groups.items() if m.any()}
    want = [(i, a, shapes.mask(a['cells']) & inside)
            for i, a in enumerate(case['areas'])]
    want = [(i, a, m) for i, a, m in want if m.any()]
    got, crs = shapes.read(out)
    require(crs == 'EPSG:4326', 'reference system %s', crs)
    require(len(got) == len(want), '%d areas for %d', len(got), len(want))
    best = 0
    for (g, att), (i, a, m) in zip(got, want):
        require(att['ID'] == i + 10 and (att['NOTE'] or '') ==
                (a['note'] or '') and (lcol == scol or
                (att[lcol] or '') == (a['use'] or '')),
                'area %d has the attributes %s', i, att)
        diff = shapes.differs(g, m, place)
        require(diff is None, 'area %d: %s', i, diff)
        parts = {k: int((m & x).sum()) for k, x in groups.items()}
        top = max(list(parts.values()) + [0])
        if top > 0:
            allowed = [k for k in parts if parts[k] == top]
            best += allowed != [None]
            ctx.label('choice by area' if
                      sum(p > 0 for p in parts.values()) > 1 else '')
        else:
            allowed = [k for k, x in groups.items()
                       if shapes.touches(m, x)] + [None]
            ctx.label('no settlement')
        require(att[scol] in allowed, 'area %d gets settlement %r for '
                'overlaps of %s cells', i, att[scol], parts)
        cat = 100 * SETTLEMENT.get(att[scol], 0) + LAND_USE.get(a['use'], 0)
        require(att['CAT'] == cat, 'area %d, %r in %r, has CAT %r instead of '
                '%d', i, a['use'], att[scol], att['CAT'], cat)
        ctx.label('unknown use' if a['use'] not in LAND_USE else '')
    ctx.label(case['how'], 'masked' if case['mask'] else '',
              'mask of several shapes' if case['mask'] and
              case.get('masks') else '',
              'areas dropped' if len(want) < len(case['areas']) else '')
    ctx.nontrivial(best > 0)


def program(case, ctx, settlements, areas, crop, out):
    """The same with the program, and its raster"""
    x0, y0, step = case['place']
    dem = geo.write_raster(ctx.path('dem.tif'), np.ones((shapes.N, shapes.N)),
                           x0, y0, step, step)
    text = """
[Preprocessing]
settlement_data = %s
settlement_cat = %s
land_use_data = %s
land_use_cat = %s
crop_mask = %s
input_topo = %s
topo_crop = True
output_shapefile = %s
output_rasterized = %s
""" % (settlements, case['columns'][0], areas, case['columns'][1], crop,
       'True' if case['mask'] else dem, out, ctx.path('out.tif'))
    cfg = geo.write_config(ctx.path('case.cfg'), ctx.scratch, dem_data=dem,
                           extra=text)
    p = subprocess.run([env.PYTHON, os.path.join(REPO, 'pre_process.py'),
                        '-c', cfg], cwd=ctx.scratch, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=''))
    require(p.returncode == 0, 'pre_process.py ends with %d: %s',
            p.returncode, p.stdout.decode(errors='replace')[-600:])
    data, gt, _ = geo.read_raster(ctx.path('out.tif'))
    require(data.shape == (shapes.N, shapes.N) and
            np.allclose(gt, (x0, step, 0, y0, 0, -step)),
            'the raster has shape %s and lies at %s', data.shape, gt)
    cats = {}
    for g, att in shapes.read(out)[0]:
        cats.setdefault(att['CAT'], []).append(g)
    from shapely import contains_xy
    r, c = np.mgrid[0:shapes.N, 0:shapes.N]
    xs, ys = x0 + (c + 0.5) * step, y0 - (r + 0.5) * step
    allowed = np.zeros(data.shape, dtype=bool)
    covered = np.zeros(data.shape, dtype=bool)
    for cat, shapes_ in cats.items():
        for g in shapes_:
            m = contains_xy(g, xs.ravel(), ys.ravel()).reshape(data.shape)
            covered |= m
            allowed |= m & (data == cat)
    require((allowed | (~covered & (data == 0))).all(),
            'the raster does not hold the categories')


