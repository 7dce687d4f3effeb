"""Tile extraction copies the right cells."""
import math

import numpy as np
from hypothesis import strategies as st

import all_multipliers
from harness import gen, geo
from harness.core import require

ID = 'P02'
QUICK = 7000
THOROUGH = 30000
RULE = ('A case is a DEM (shape, place, cell size, oblong cells, data type, '
        'declared no-data) and a window of its cells, given as an extent with '
        'or without floating point error, and a land cover raster of another '
        'resolution, alignment, data type, coverage and possibly projection. '
        'The two tiles written are compared cell by cell with the inputs. '
        'Non-trivial: the window is not the whole DEM or the grids differ, '
        'and the rasters are not constant.')
ASSUMPTIONS = ['land cover cells are not compared where the centre of the '
               'tile cell is within 1e-6 of a cell (1e-3 across projections) '
               'of the edge of a land cover cell',
               'DEM cells that hold the declared no-data value are not '
               'compared']

R = 6378137.0


@st.composite
def strategy(draw, tier):
    size = 40 if tier == 'quick' else 90
    rows, cols = draw(gen.shape(size, 1, 1500, 600))
    pw = draw(st.one_of(st.sampled_from([0.00027777777777778, 0.001, 0.0025,
                                         0.01, 1 / 3600., 0.1]),
                        gen.rounded(0.0002, 0.02, 6)))
    ph = draw(st.one_of(st.just(pw), st.just(pw), gen.rounded(
        0.0002, 0.02, 6)))
    r0 = draw(st.integers(0, rows - 1)) if draw(st.booleans()) else rows // 3
    c0 = draw(st.integers(0, cols - 1)) if draw(st.booleans()) else cols // 3
    case = {'rows': rows, 'cols': cols, 'pw': pw, 'ph': ph,
            'x0': draw(st.one_of(gen.rounded(113, 153, 4),
                                 gen.rounded(-179, 170, 3),
                                 st.integers(-3, 3))),
            'y0': draw(st.one_of(gen.rounded(-44, -10, 4),
                                 gen.rounded(-60, 60, 3),
                                 st.integers(-3, 3))),
            'window': [r0, c0, draw(st.integers(r0 + 1, rows)),
                       draw(st.integers(c0 + 1, cols))],
            'shift': draw(st.sampled_from([0, 0, 1, -1])),
            'dtype': draw(st.sampled_from(['float32', 'float32', 'int32',
                                           'int16', 'uint8', 'float64'])),
            'ext': draw(st.sampled_from(['.img', '.tif'])),
            'layouts': [draw(st.sampled_from(['plain'] * 8 + geo.LAYOUTS))
                        for _ in range(2)],
            'dem': draw(gen.byte_grid(rows * cols)),
            'scale': draw(st.sampled_from([1, 0.37, 8.3])),
            'nodata': draw(st.sampled_from([None, None, 3]))}
    # land cover
    k, m = draw(gen.shape(size, 1, 1500, 600))
    kind = draw(st.sampled_from(['same', 'finer', 'coarser', 'any',
                                 'mercator', 'utm']))
    case['lc'] = {
        'kind': kind, 'rows': k, 'cols': m,
        'grid': draw(gen.byte_grid(k * m)),
        'dtype': draw(st.sampled_from(['int32', 'uint8', 'float32', 'int16',
                                       'uint16', 'uint32', 'float64'])),
        'spread': draw(st.sampled_from([1, 1, 1, 7, 255])),
        'declared': draw(st.sampled_from([None, None, None, 1, 2, 255])),
        'ratio': {'same': 1, 'finer': draw(st.sampled_from(
            [0.5, 0.25, 1 / 3., 0.7])), 'coarser': draw(st.sampled_from(
                [2, 4, 3, 1.9]))}.get(kind, draw(gen.rounded(0.2, 5, 2))),
        'open': draw(st.booleans()),
        'named': draw(st.sampled_from([None, None, None, '', 3857]))}
    # offset of the corner from that of the DEM in DEM cells: a point of the
    # land cover lies on a point of the window, or it lies anywhere
    part = st.sampled_from([0.5, 0, 0.25, 0.7, 0.9, 1.1])
    where = draw(st.sampled_from(['over', 'over', 'over', 'over', 'any']))
    for name, a, b, n in (('dr', r0, case['window'][2], k),
                          ('dc', c0, case['window'][3], m)):
        if where == 'any':
            at = draw(st.one_of(st.integers(-20, 20),
                                gen.rounded(-20, 20, 2)))
        else:
            at = round(a + (b - a) * draw(part) -
                       n * case['lc']['ratio'] * draw(part), 2)
            if draw(st.booleans()):
                at = math.floor(at)
        case['lc'][name] = at
    return case


def merc_y(lat):
    return R * np.log(np.tan(math.pi / 4 + np.radians(lat) / 2))


def check(case, ctx):
    rows, cols = case['rows'], case['cols']
    x0, y0, pw, ph = case['x0'], case['y0'], case['pw'], case['ph']
    dtype = case['dtype']
    dem = gen.unbytes(case['dem'], (rows, cols))
    if dtype.startswith('float'):
        dem = dem * case['scale'] - 11.5
    elif dtype == 'int32':
        dem = dem * 100003 - 7
    elif dtype == 'int16':
        dem = dem - 100
    nodata = case['nodata']
    missing = np.zeros(dem.shape, bool)
    if nodata is not None:
        missing = (np.arange(rows * cols).reshape(dem.shape) % 7) == nodata
        nodata = {'uint8': 255}.get(dtype, -9999)
        dem[missing] = nodata
        missing = dem == nodata
    dem = dem.astype(dtype)
    path = geo.write_raster(ctx.path('in' + case['ext']), dem, x0, y0, pw, ph,
                            dtype, nodata=nodata)
    layouts = case.get('layouts', ['plain', 'plain'])
    path = geo.lay_out(path, layouts[0])
    before = open(path, 'rb').read()
    r0, c0, r1, c1 = case['window']
    ext = list(geo.extent_of(x0, y0, pw, ph, c0, r0, c1, r1))
    # the relative error of a sum of coordinates
    ext = [v * (1 + case['shift'] * 4e-16) for v in ext]

    lc = case['lc']
    classes = gen.unbytes(lc['grid'], (lc['rows'], lc['cols'])) + 1
    classes = classes * lc.get('spread', 1)
    top = {'uint8': 255, 'int16': 32767}.get(lc['dtype'])
    if top:
        classes = np.minimum(classes, top)
    lx, ly = x0 + lc['dc'] * pw, y0 - lc['dr'] * ph
    lw, lh = pw * lc['ratio'], ph * lc['ratio']
    projection = None
    if lc['kind'] == 'mercator':
        projection = geo.wkt(3857)
        lx, ly = R * math.radians(lx), float(merc_y(ly))
        lw = R * math.radians(lw)
        lh = R * math.radians(lh) / math.cos(math.radians(y0))
    elif lc['kind'] == 'utm':
        # curved lines of cells
        code = (32600 if y0 > 0 else 32700) + int((x0 + 180) // 6) + 1
        projection = geo.wkt(code)
        there = geo.transformer(4326, code)
        lx, ly = there(lx, ly)
        lw = R * math.radians(lw) * math.cos(math.radians(y0))
        lh = R * math.radians(lh)
    declared = lc.get('declared')
    lc_path = geo.write_raster(ctx.path('landcover.img'), classes, lx, ly, lw,
                               lh, lc['dtype'], projection=projection,
                               nodata=declared)
    lc_path = geo.lay_out(lc_path, layouts[1])
    if declared is not None:
        ctx.label('land cover declared missing')
        classes = np.where(classes == declared, 0, classes)

    all_multipliers.output_folder = ctx.scratch
    source = geo.gdal.Open(lc_path) if lc['open'] else lc_path
    job = all_multipliers.Multipliers(lc_path, path)
    job.open_dem()
    tile = job.cut_dem(['e1s2', tuple(ext), tuple(ext)])
    out = ctx.path('e1s2.img')
    match = geo.gdal.Open(tile) if lc['open'] else tile
    if lc['named'] is None:
        all_multipliers.reproject_dataset(source, match, out)
    else:
        # the reference system is given, and not taken from the tile
        match = geo.gdal.GetDriverByName('MEM').CreateCopy(
            '', geo.gdal.Open(tile))
        match.SetProjection('' if lc['named'] == '' else
                            geo.wkt(lc['named']))
        all_multipliers.reproject_dataset(source, match, out,
                                          match_projection=4326)
        ctx.label('reference system given')
    match = source = None

    got, gt, proj = geo.read_raster(tile)
    want = dem[r0:r1, c0:c1]
    require(got.shape == want.shape, 'window %s is cut to %s', want.shape,
            got.shape)
    corner = geo.extent_of(x0, y0, pw, ph, c0, r0, c1, r1)
    require(abs(gt[0] - corner[0]) < 1e-6 * pw and
            abs(gt[3] - corner[1]) < 1e-6 * ph and
            abs(gt[1] / pw - 1) < 1e-9 and abs(gt[5] / -ph - 1) < 1e-9 and
            gt[2] == 0 and gt[4] == 0,
            'window at %s with cells %s is placed at %s', corner[:2],
            (pw, ph), gt)
    require(geo.osr.SpatialReference(proj).IsGeographic(), 'DEM tile has the '
            'reference system %s', proj)
    want = want.astype('int32' if dtype == 'int32' else 'float32')
    # a missing elevation is 0 in the tile, unless it is declared there
    ds = geo.gdal.Open(tile)
    declared = ds.GetRasterBand(1).GetNoDataValue()
    ds = None
    ok = np.where(missing[r0:r1, c0:c1], got == (
        0 if declared is None else declared), got == want)
    require(ok.all(), '%d cells of the DEM tile differ, first %s: %s for %s',
            (~ok).sum(), np.argwhere(~ok)[:1].tolist(), got[~ok][:1],
            want[~ok][:1])
    lost = (got == declared) & ~missing[r0:r1, c0:c1]
    require(declared is None or not lost.any(), '%d cells of the DEM tile '
            'are declared missing (%s) and are not', lost.sum(), declared)

    got, gt2, proj2 = geo.read_raster(out)
    require(got.shape == want.shape and
            np.allclose(gt2, gt, rtol=1e-12, atol=0) and
            proj2 and geo.osr.SpatialReference(proj2).IsGeographic(),
            'land cover tile %s at %s does not lie on the DEM tile %s at %s',
            got.shape, gt2, want.shape, gt)
    x = x0 + (np.arange(c0, c1) + 0.5) * pw
    y = y0 - (np.arange(r0, r1) + 0.5) * ph
    margin = 1e-6
    if lc['kind'] == 'mercator':
        x, y = R * np.radians(x), merc_y(y)
        margin = 1e-3
    x, y = np.meshgrid(x, y)
    if lc['kind'] == 'utm':
        points = np.array([there(*q) for q in zip(x.ravel(), y.ravel())])
        x, y = points.T.reshape((2,) + x.shape)
        margin = 1e-3
    fc, fr = (x - lx) / lw, (ly - y) / lh
    sure = (np.abs(fr - np.round(fr)) > margin) & \
        (np.abs(fc - np.round(fc)) > margin)
    ir, ic = np.floor(fr).astype(int), np.floor(fc).astype(int)
    inside = (ir >= 0) & (ir < lc['rows']) & (ic >= 0) & (ic < lc['cols'])
    want_lc = np.where(inside, classes[np.clip(ir, 0, lc['rows'] - 1),
                                       np.clip(ic, 0, lc['cols'] - 1)], 0)
    ok = (got == want_lc) | ~sure
    require(ok.all(), '%d cells of the land cover tile differ, first %s: %s '
            'for %s', (~ok).sum(), np.argwhere(~ok)[:1].tolist(),
            got[~ok][:1], want_lc[~ok][:1])
    with open(path, 'rb') as f:
        require(f.read() == before, 'the input DEM is changed')
    ctx.label(*['input ' + x for x in set(layouts) - {'plain'}])
    ctx.label('land cover ' + lc['kind'], 'dem ' + dtype,
              'covered' if inside.all() else 'not covered'
              if not inside.any() else 'partly covered',
              'declared no-data' if nodata is not None else '')
    ctx.count('land cover cells not compared', (~sure).sum())
    ctx.nontrivial((sure & inside).any() and np.unique(dem).size > 1 and
                   ((r1 - r0, c1 - c0) != (rows, cols) or
                    lc['kind'] != 'same'))
