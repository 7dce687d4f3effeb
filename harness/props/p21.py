"""Each cell of the raster has the category of the polygon at its centre."""
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

from harness import env, gen, geo, shapes
from harness.core import REPO, require

ID = 'P21'
QUICK = 7000
THOROUGH = 80000
RULE = ('A case is a topography raster (size, place, resolution, data type, '
        'format) and polygons of 3 or 4 corners anywhere around it, with '
        'categories. Every cell whose centre is not on an edge is compared '
        'with a count of edge crossings. About one case in 60 runs the '
        'program rasterize.py, with the attribute to take and a mask to cut '
        'to in some. Non-trivial: at least two different values in '
        'the raster.')
ASSUMPTIONS = ['where polygons overlap, the category may be that of any',
               'the shapefile is in the reference system of the raster']


@st.composite
def strategy(draw, tier):
    rows, cols = draw(gen.shape(16, 1, 900, 300))

    def corner():
        return [draw(st.integers(-3 * 16, (rows + 3) * 16)),
                draw(st.integers(-3 * 16, (cols + 3) * 16))]
    polygons = []
    for _ in range(draw(gen.number(1, 6, 30))):
        if draw(st.booleans()):
            (a, b), (c, d) = corner(), corner()
            ring = [[a, b], [a, d], [c, d], [c, b]]
        else:
            ring = [corner(), corner(), corner()]
        polygons.append({'ring': ring, 'more': draw(st.sampled_from(
            ['', '', '', 'hole', 'part', 'both'])), 'cat': draw(st.one_of(
            st.sampled_from([1, 105, 202, 511, 1]),
            st.integers(0, 65535), st.integers(0, 600)))})
    crop = draw(st.one_of(
        st.just([[0, 0], [rows * 8, 0], [rows * 8, cols * 8], [0, cols * 8]]),
        st.tuples(*[st.tuples(st.integers(-8, rows * 16 + 8),
                              st.integers(-8, cols * 16 + 8))] * 3)))
    return {'rows': rows, 'cols': cols, 'polygons': polygons,
            'crop': crop if draw(st.booleans()) else None,
            'attribute': draw(st.sampled_from([None, 'CAT', 'OTHER'])),
            'x0': draw(gen.rounded(-170, 170, 2)),
            'y0': draw(gen.rounded(-60, 60, 2)),
            'step': draw(st.sampled_from([0.1, 0.00027777777, 0.0025])),
            'ratio': draw(st.sampled_from([1, 1, 1.5, 0.75])),
            'dtype': draw(st.sampled_from(['float32', 'int16', 'int32'])),
            'driver': draw(st.sampled_from(['.tif', '.img'])),
            'nodata': draw(st.sampled_from([None, -9999, 0])),
            'projected': draw(st.booleans()),
            # the shapefile is in another reference system
            'other': draw(st.sampled_from([False, False, True])),
            'over': draw(st.booleans()),
            'how': draw(st.sampled_from(['call'] * 59 + ['program']))}


def rings_of(p):
    """The rings of a polygon: a hole of half its size, another part"""
    ring = [[float(a), float(b)] for a, b in p['ring']]
    more = p.get('more', '')
    rings = [ring]
    if more in ('hole', 'both'):
        n = len(ring)
        mid = [sum(x[k] for x in ring) / n for k in (0, 1)]
        rings.append([[(a + mid[0]) / 2, (b + mid[1]) / 2] for a, b in ring])
    if more in ('part', 'both'):
        away = 16 + max(x[0] for x in ring) - min(x[0] for x in ring)
        rings.append([[a + away, b] for a, b in ring])
    return rings


def crossings_of(p, r, c):
    """The same, for all the rings of a polygon"""
    inside = np.zeros(r.shape, dtype=bool)
    near = np.full(r.shape, np.inf)
    for ring in rings_of(p):
        one, distance = crossings(ring, r, c)
        inside ^= one
        near = np.minimum(near, distance)
    return inside, near


def crossings(ring, r, c):
    """Inside (by crossings of a ray), and the distance to the edges"""
    inside = np.zeros(r.shape, dtype=bool)
    near = np.full(r.shape, np.inf)
    for (r0, c0), (r1, c1) in zip(ring, ring[1:] + ring[:1]):
        if r0 != r1:
            between = (r0 > r) != (r1 > r)
            at = c0 + (r - r0) * (c1 - c0) / float(r1 - r0)
            inside ^= between & (c < at)
        length = (r1 - r0) ** 2 + (c1 - c0) ** 2
        t = 0 if length == 0 else np.clip(
            ((r - r0) * (r1 - r0) + (c - c0) * (c1 - c0)) / float(length),
            0, 1)
        near = np.minimum(near, np.hypot(r - r0 - t * (r1 - r0),
                                         c - c0 - t * (c1 - c0)))
    return inside, near


def check(case, ctx):
    from shapely.geometry import MultiPolygon, Polygon
    rows, cols = case['rows'], case['cols']
    pw, ph = case['step'], case['step'] * case['ratio']
    x0, y0 = case['x0'], case['y0']
    epsg = 4326
    if case['projected']:
        pw, ph, x0, y0, epsg = 25.0, 25.0 * case['ratio'], 5e5, 7.5e6, 28355
    folder = ctx.path('in')
    os.mkdir(folder)
    # the attribute to take, and the part to keep, are for the program
    name = case['attribute'] if case['how'] == 'program' else None
    crop = case['crop'] if case['how'] == 'program' else None
    topo = geo.write_raster(
        os.path.join(folder, 'topo' + case['driver']),
        np.arange(rows * cols).reshape(rows, cols), x0, y0, pw, ph,
        case['dtype'], nodata=case['nodata'], projection=geo.wkt(epsg))
    feats = []
    polygons = []
    theirs = epsg
    reach = [abs(v) for v in (x0 - 4 * pw, x0 + (cols + 4) * pw,
                              2 * y0 + 8 * ph, 2 * y0 - 4 * (rows + 8) * ph)]
    if case['other'] and (case['projected'] or max(reach) < 160):
        theirs = 4283 if case['projected'] else 3857
    move = geo.transformer(epsg, theirs)
    for p in case['polygons']:
        # straight edges in the reference system of the raster
        rings = [[(x0 + c / 16.0 * pw, y0 - r / 16.0 * ph)
                  for r, c in ring] for ring in rings_of(p)]
        if theirs != epsg:
            rings = [[move(*xy) for xy in ring] for ring in rings]
        hole = p['more'] in ('hole', 'both')
        g = Polygon(rings[0], [rings[1]] if hole else [])
        if p['more'] in ('part', 'both'):
            g = MultiPolygon([g, Polygon(rings[-1])])
        if g.area > 0 and g.is_valid:
            other = (p['cat'] * 31 + 7 * len(feats)) % 65536
            feats.append((g, {'CAT': p['cat'], 'OTHER': other}))
            polygons.append({'ring': p['ring'], 'more': p['more'],
                             'value': other if name == 'OTHER' else
                             p['cat']})
    shp = shapes.write(os.path.join(folder, 's.shp'), feats,
                       {'CAT': 'int', 'OTHER': 'int'},
                       crs='EPSG:%d' % theirs)
    r, c = np.mgrid[0:rows, 0:cols] * 16.0 + 8
    if crop is not None:
        inside, near = crossings([list(x) for x in crop], r, c)
        well = np.argwhere(inside & (near > 8))
        # a mask of next to no cells has no raster
        if not len(well) or (np.ptp(well, axis=0) < 2).any():
            crop = None
    if crop is not None:
        mask = shapes.write(
            os.path.join(folder, 'mask.shp'),
            [(Polygon([(x0 + b / 16.0 * pw, y0 - a / 16.0 * ph)
                       for a, b in crop]), {'N': 1})], {'N': 'int'},
            crs='EPSG:%d' % epsg)
    before = shapes.digest(folder)
    out = ctx.path('test.tiff')
    if case['over']:
        geo.write_raster(out, np.ones((3, 2)), 0, 0, 1, 1, driver='GTiff')
    if case['how'] == 'call':
        import pre_process
        pre_process.rasterize(shp, out, topo, None)
    else:
        p = subprocess.run(
            [env.PYTHON, os.path.join(REPO, 'rasterize.py'), '-i', shp, '-t',
             topo] + ([] if name is None else ['-a', name]) +
            ([] if crop is None else ['-c', mask]), cwd=ctx.scratch,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ, PYTHONPATH=''))
        require(p.returncode == 0, 'rasterize.py ends with %d: %s',
                p.returncode, p.stdout.decode(errors='replace')[-600:])
    made = os.path.join(folder, 'topo_crop' + case['driver'])
    for extra in ([made, made + '.aux.xml'] if crop is not None else []):
        if os.path.exists(extra):
            os.remove(extra)
    require(shapes.digest(folder) == before, 'the input files are changed')
    ctx.label(case['how'], 'projected' if case['projected'] else '',
              'other reference system' if theirs != epsg else '',
              'attribute %s' % name if name else '')
    if crop is not None:
        check_crop(case, ctx, polygons, crop, (x0, y0, pw, ph))
        return
    ds = geo.gdal.Open(out)
    require(ds.RasterCount == 1, '%d bands', ds.RasterCount)
    data, gt = ds.ReadAsArray().astype(int), ds.GetGeoTransform()
    nodata = ds.GetRasterBand(1).GetNoDataValue()
    srs = geo.osr.SpatialReference(ds.GetProjection())
    ds = None
    require(data.shape == (rows, cols), 'shape %s for a topography of %d x '
            '%d', data.shape, rows, cols)
    require(np.allclose(gt, (x0, pw, 0, y0, 0, -ph), rtol=1e-12, atol=0),
            'lies at %s', gt)
    require(srs.IsSame(geo.osr.SpatialReference(geo.wkt(epsg))) == 1,
            'reference system %s', srs.ExportToWkt()[:60])
    require(nodata == 0, 'no-data is %r', nodata)
    allowed = np.zeros(data.shape, dtype=bool)
    covered = np.zeros(data.shape, dtype=bool)
    skip = np.zeros(data.shape, dtype=bool)
    for p in polygons:
        inside, near = crossings_of(p, r, c)
        skip |= near < 1e-3
        covered |= inside
        allowed |= inside & (data == p['value'])
    ok = skip | allowed | (~covered & (data == 0))
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        require(False, '%d of %d cells differ, first %s: %d', (~ok).sum(),
                ok.size, list(map(int, i)), data[i])
    ctx.count('cells', int((~skip).sum()))
    ctx.nontrivial(len(np.unique(data)) > 1)


def check_crop(case, ctx, polygons, crop, place):
    """The raster cut to a mask"""
    x0, y0, pw, ph = place
    rows, cols = case['rows'], case['cols']
    data, gt, _ = geo.read_raster(ctx.path('test_crop.tiff'))
    data = data.astype(int)
    require(abs(gt[1] / pw - 1) < 1e-6 and abs(gt[5] / ph + 1) < 1e-6,
            'cells of the raster that is cut are %s, not %s', (gt[1], gt[5]),
            (pw, -ph))
    i, j = np.mgrid[0:data.shape[0], 0:data.shape[1]] + 0.5
    r = (y0 - gt[3] - i * gt[5]) / ph * 16
    c = (gt[0] + j * gt[1] - x0) / pw * 16
    off = np.abs((r - 8) / 16 - np.round((r - 8) / 16)).max() + \
        np.abs((c - 8) / 16 - np.round((c - 8) / 16)).max()
    require(off < 1e-3, 'the cells are cut by %g', off)
    kept, edge = crossings([list(x) for x in crop], r, c)
    on = (r > 0) & (r < rows * 16) & (c > 0) & (c < cols * 16)
    # every cell of the topography in the mask is there; GDAL leaves out those
    # that are in part beyond the extent of the mask
    rr, cc = np.mgrid[0:rows, 0:cols] * 16.0 + 8
    inside, near = crossings([list(x) for x in crop], rr, cc)

    def counts(r, c, inside, near):
        beyond = np.max([min(x[0] for x in crop) - (r - 8),
                         r + 8 - max(x[0] for x in crop),
                         min(x[1] for x in crop) - (c - 8),
                         c + 8 - max(x[1] for x in crop)], axis=0)
        return [int((inside & (near > limit) & (beyond < more)).sum())
                for limit, more in ((0.6, -0.1), (0.5, 0.1))]
    must = counts(rr, cc, inside, near)
    have = counts(r, c, kept & on, edge)
    require(must[0] <= have[1] and have[0] <= must[1], '%s cells of the '
            'topography are in the mask, and %s cells are kept', must, have)
    skip = edge < 0.5
    allowed = ~on & (data == 0)
    covered = np.zeros(data.shape, dtype=bool)
    for p in polygons:
        inside, near = crossings_of(p, r, c)
        skip |= near < 0.1
        covered |= inside
        allowed |= inside & (data == p['value'])
    ok = skip | np.where(kept, allowed | (~covered & (data == 0)), data == 0)
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        require(False, '%d of %d cells differ in the raster that is cut, '
                'first %s: %d', (~ok).sum(), ok.size, list(map(int, i)),
                data[i])
    ctx.label('cut to a mask')
    ctx.nontrivial(len(np.unique(data)) > 1)
