"""A full run gives every output, in the right place, and nothing else."""
import contextlib
import math
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from harness import child, conv, env, gen, geo, pipeline, ranks, ref, tiles
from harness.core import REPO, Reject, fail, require

ID = 'P23'
QUICK = 200
THOROUGH = 2600
RULE = ('A case is a DEM of one or several tiles of one degree, some of them '
        'without elevations, a land cover raster of another grid, a terrain '
        'table, a configuration with relative or absolute paths, the files '
        'that are there before, the number of processes and their timing. '
        'The program is run by an unprivileged user, in about one case of 30 '
        'as a program of its own, and every value and file is compared with '
        'the definitions of the multipliers. Non-trivial: a tile with values '
        'other than 1 of two multipliers.')
ASSUMPTIONS = ['processes communicate through the mpi4py interface, here '
               'replaced by a stand-in',
               'tiles have at least 2 x 2 cells (see the known finding)',
               'cells are not compared where rounding decides a threshold']
SETTLE = 1e-6
prepare = pipeline.prepare


@st.composite
def axis(draw, kind, cell):
    if kind == 'fine':
        return draw(st.integers(2, 18))
    step = int(math.ceil(1 / cell))
    n = draw(st.integers(2, int(2.6 * step))) if kind == 'large' else \
        step + draw(st.integers(2, 9))
    return n + 1 if n % step == 1 else n


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(['large', 'large', 'large', 'fine', 'fine',
                                 'thin']))
    lat = draw(st.one_of(gen.rounded(-44, -10, 3), gen.rounded(-43, -40, 2),
                         gen.rounded(-60, 70, 2)))
    lon = draw(st.one_of(gen.rounded(143.5, 148, 2), gen.rounded(113, 150, 3),
                         gen.rounded(-178, 170, 2)))
    if kind == 'large':
        cells = st.sampled_from([0.25, 0.125, 0.1, 0.0625, 0.2, 0.17])
        pw = draw(cells)
        ph = draw(st.one_of(st.just(pw), cells))
    elif kind == 'thin':
        pw = ph = draw(st.sampled_from([0.01, 0.005, 0.004]))
    else:
        metres = draw(st.sampled_from([10., 25., 30., 48., 90., 120., 250.,
                                       600.]))
        pw = float('%.6g' % geo.degrees_for(metres, lat))
        ph = float('%.6g' % (pw * draw(st.sampled_from([1, 1, 0.8, 1.3]))))
    along = draw(st.booleans())
    rows = draw(axis('fine' if kind == 'thin' and along else kind, ph))
    cols = draw(axis('fine' if kind == 'thin' and not along else kind, pw))
    if kind == 'thin':
        rows, cols = (min(rows, 6), cols) if along else (rows, min(cols, 6))
    k = draw(st.integers(0, 4))
    table = draw(gen.table_spec())
    unlisted = draw(st.sampled_from([0, 0, 1]))
    lc = {'ratio': draw(st.sampled_from([1, 0.5, 0.7, 2, 3.3])),
          'dr': draw(st.sampled_from([0.137, -0.211, 0])),
          'dc': draw(st.sampled_from([0.137, -0.211, 0])),
          'cover': draw(st.sampled_from(['all', 'all', 'all', 'north',
                                         'west'])),
          'dtype': draw(st.sampled_from(['int32', 'float32', 'int16']))}
    if lc['ratio'] != 1:
        # no centre of a cell on the edge between two
        lc['dr'], lc['dc'] = lc['dr'] or 0.137, lc['dc'] or -0.211
    shape = [int(math.ceil(n / lc['ratio'])) + 2 for n in (rows, cols)]
    size = draw(st.sampled_from([1, 1, 1, 2, 3, 4, 6]))
    how = draw(st.sampled_from(['call'] * 14 + ['program'])) \
        if size == 1 else 'processes'
    return {
        'kind': kind, 'rows': rows, 'cols': cols, 'x0': lon, 'y0': lat,
        'pw': pw, 'ph': ph, 'buffer': round((k + 0.43) * max(pw, ph), 7),
        'dem': draw(gen.dem_spec(
            rows, cols,
            amplitude=draw(st.sampled_from([300, 3000, 30000]))
            if kind != 'fine' else None,
            kinds=['hills', 'smooth', 'noise', 'plane', 'steps'])),
        'dem_dtype': draw(st.sampled_from(['float32', 'float32', 'int32',
                                           'int16'])),
        'zero': draw(st.sampled_from([None] * 6 + [
            'west', 'west', 'south', 'south', 'all'])),
        # land less than half a metre high, everywhere or a cell in the sea
        'low': draw(st.sampled_from([None] * 10 + ['all', 'cell', 'cell'])),
        # a DEM with a missing value, which the sea may have
        'declared': draw(st.sampled_from([None] * 3 + ['none', 'sea'])),
        'zero_part': draw(st.sampled_from([0.3, 0.6, 0.8])),
        'table': table, 'unlisted': unlisted, 'lc': lc,
        'classes': draw(gen.class_spec(shape[0], shape[1],
                                       len(table) + unlisted)),
        'formats': [draw(st.sampled_from(['.tif', '.img'])) for _ in 'dl'],
        'layouts': [draw(st.sampled_from(['plain'] * 4 + geo.LAYOUTS))
                    for _ in 'dl'],
        'output': draw(st.sampled_from(['out', 'deep/out put', 'out/'])),
        'relative': draw(st.booleans()), 'cwd': draw(st.sampled_from(
            ['data', 'work', 'work/below'])),
        'log': draw(st.sampled_from(['log/m.log', 'new/log/m.log', 'm.log'])),
        'level': draw(st.sampled_from(['INFO', 'DEBUG', 'WARNING'])),
        'verbose': draw(st.booleans()),
        'before': draw(st.sampled_from(['nothing', 'junk', 'junk', 'run'])),
        # the processes make the folder of the log at the same time
        'race': draw(st.booleans()) if size > 1 else False,
        'size': size, 'how': how, 'sync': draw(st.booleans()),
        'choices': draw(st.lists(st.integers(0, 9), max_size=10))}


def build_rasters(case):
    """(DEM, land cover classes on the cells of the DEM, land cover)"""
    rows, cols = case['rows'], case['cols']
    dem = gen.build_dem(case['dem'])
    if case['dem_dtype'].startswith('int'):
        dem = np.clip(np.round(dem), -32000, 32000)
    if case['zero'] == 'west':
        dem[:, :int(cols * case['zero_part'])] = 0
    elif case['zero'] == 'south':
        dem[int(rows * case['zero_part']):] = 0
    elif case['zero'] == 'all':
        dem[:] = 0
    if case.get('low') == 'all' and dem.any():
        dem = dem * (0.45 / np.abs(dem).max())
    elif case.get('low') == 'cell':
        dem[rows - 1, 0] = 0.375
    dem = dem.astype(case['dem_dtype']).astype(float)
    lc = case['lc']
    values = np.array([r[0] for r in case['table']] + [701])
    source = values[gen.build_classes(case['classes'])]
    if lc['cover'] == 'north':
        source = source[:max(1, source.shape[0] // 2)]
    elif lc['cover'] == 'west':
        source = source[:, :max(1, source.shape[1] // 2)]
    # nearest cell: that in which the centre of the cell of the DEM lies
    fr = (np.arange(rows) + 0.5 - lc['dr']) / lc['ratio']
    fc = (np.arange(cols) + 0.5 - lc['dc']) / lc['ratio']
    for f in (fr, fc):
        if (np.abs(f - np.round(f)) < 1e-4).any():
            raise Reject()
    r, c = np.floor(fr).astype(int), np.floor(fc).astype(int)
    inside = ((r >= 0) & (r < source.shape[0]))[:, None] & \
        ((c >= 0) & (c < source.shape[1]))[None, :]
    classes = np.where(
        inside, source[np.clip(r, 0, source.shape[0] - 1)][
            :, np.clip(c, 0, source.shape[1] - 1)], 0)
    return dem, classes, source


def plan(case):
    """Cells of the tiles and of the tiles with buffer: (r0, c0, r1, c1)"""
    spans = []
    for n, cell in ((case['rows'], case['ph']), (case['cols'], case['pw'])):
        step = int(math.ceil(1.0 / cell))
        q = case['buffer'] / cell
        if abs(q - round(q)) < 1e-6:
            raise Reject()
        b = int(q)
        spans.append([((i, min(i + step, n)),
                       (max(0, i - b), min(n, i + step + b)))
                      for i in range(0, n, step)])
    return [((r[0], c[0], r[1], c[1]), (rb[0], cb[0], rb[1], cb[1]))
            for r, rb in spans[0] for c, cb in spans[1]]


def expect(case, dem, classes, outer):
    """
    {direction: {multiplier: (lowest, highest, cells to compare)}} of the
    cells of a tile with buffer, None if the tile is empty
    """
    r0, c0, r1, c1 = outer
    x0, y0 = case['x0'] + c0 * case['pw'], case['y0'] - r0 * case['ph']
    part, kinds = dem[r0:r1, c0:c1], classes[r0:r1, c0:c1]
    if not part.any():
        return None
    if abs(x0 - 143) < SETTLE or abs(-y0 - 40) < SETTLE:
        raise Reject()
    shape = part.shape
    if pipeline.steady(shape[0], shape[1], y0, case['pw'],
                       case['ph']) is None:
        raise Reject()
    g = geo.grid_width(shape[0], shape[1], y0, case['pw'], case['ph'])
    unsure = pipeline.unsure_aspect(part, y0, case['pw'], case['ph'])
    slope, bearing = ref.slope_aspect(part, y0, case['pw'], case['ph'])
    init = ref.shielding_initial(kinds, case['table'])
    size = int(100.0 / g)
    out = {}
    for d in geo.DIRECTIONS:
        mz = ref.terrain_multiplier(kinds, case['table'], d, g)
        if mz is None:
            raise Reject()
        mean = ref.zone_mean(init, ref.shielding_zone(d, size)) if size \
            else init
        ms = ref.shield_combine(mean, slope,
                                ref.octant(bearing) == ref.ASPECT[d])
        lo, hi = ref.topographic_multiplier(part, d, g, x0 > 143 and
                                            -y0 > 40)
        out[d] = {'Ms': (ms, ms, ~unsure), 'Mt': (lo, hi, True),
                  'Mz': None if isinstance(mz, str) else (mz, mz, True)}
    return out


def invoke(case, area, config):
    """Run the program as an unprivileged user with its own process"""
    sys.argv = ['all_multipliers.py', '-c', config] + (
        ['-v'] if case['verbose'] else [])
    import all_multipliers
    if case['how'] == 'program':
        e = dict(os.environ, PYTHONPATH='', HOME=area,
                 MPLCONFIGDIR=area)
        p = subprocess.run(
            [env.PYTHON, os.path.join(REPO, 'all_multipliers.py')] +
            sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=e)
        require(p.returncode == 0, 'the program ends with %s: %s',
                p.returncode, p.stdout.decode(errors='replace')[-700:])
        return

    def work(comm=None):
        log = os.path.dirname(os.path.join(area, case['log']))
        with env.Guard(area) as guard, env.raced(log) if case.get('race') \
                else contextlib.nullcontext():
            all_multipliers.run()
        require(not guard.escaped, 'deletes %s', guard.escaped)

    if case['how'] == 'processes':
        ranks.run_processes(case['size'], work, case['choices'],
                            case['sync'])
    else:
        work()


def prepare_area(case, ctx, dem, source):
    area = ctx.path('area')
    for name in ('data', 'work/below', 'log', 'other'):
        os.makedirs(os.path.join(area, name))
    pw, ph, lc = case['pw'], case['ph'], case['lc']
    declared = case.get('declared')
    if declared == 'sea':
        # where there is no elevation it counts as 0
        dem = np.where(dem == 0, -32768, dem)
    inputs = {
        'dem': geo.write_raster(
            os.path.join(area, 'data', 'dem' + case['formats'][0]), dem,
            case['x0'], case['y0'], pw, ph, case['dem_dtype'],
            nodata=declared and -32768),
        'lc': geo.write_raster(
            os.path.join(area, 'data', 'land cover' + case['formats'][1]),
            source, case['x0'] + lc['dc'] * pw, case['y0'] - lc['dr'] * ph,
            pw * lc['ratio'], ph * lc['ratio'], lc['dtype']),
        'table': geo.write_table(os.path.join(area, 'data', 'table.csv'),
                                 case['table'], comments=['a note'])}
    for name, how in zip(('dem', 'lc'), case.get('layouts', [])):
        inputs[name] = geo.lay_out(inputs[name], how)
    with open(os.path.join(area, 'other', 'file'), 'w') as f:
        f.write('to keep')
    cwd = os.path.join(area, case['cwd'])

    def path(p):
        return os.path.relpath(p, cwd) if case['relative'] else p

    output = os.path.join(area, case['output'])
    trail = '/' if case['output'].endswith('/') else ''
    text = ('[inputValues]\nroot = %s\nupwind_length = %r\n'
            'terrain_data = %s\nterrain_table = %s\ndem_data = %s\n'
            '[Output]\noutput_dir = %s\n[Logging]\nLogFile = %s\n'
            'LogLevel = %s\nVerbose = %s\n' % (
                path(area), case['buffer'], path(inputs['lc']),
                path(inputs['table']), path(inputs['dem']),
                path(os.path.normpath(output)) + trail,
                path(os.path.join(area, case['log'])), case['level'],
                case['verbose']))
    config = os.path.join(area, 'data', 'my.cfg')
    with open(config, 'w') as f:
        f.write(text)
    output = os.path.normpath(output)
    if case['before'] == 'junk':
        for name in ('terrain', 'M3', 'what', 'shielding'):
            os.makedirs(os.path.join(output, name))
        for name in ('note', 'M3/old.tif', 'M3/wind-multipliers.vrt',
                     'shielding/e1.0000s2.0000_ms_n.nc', 'what/ever'):
            with open(os.path.join(output, name), 'w') as f:
                f.write('from before')
    child.open_up(ctx.scratch)
    child.give(area)
    return area, cwd, path(config), output


def check(case, ctx):
    dem, classes, source = build_rasters(case)
    spans = plan(case)
    wants = [expect(case, dem, classes, outer) for _, outer in spans]
    area, cwd, config, output = prepare_area(case, ctx, dem, source)
    if case['before'] == 'run':
        other = dict(case, how='call', verbose=False)
        child.isolated(invoke, other, area, config, unprivileged=True,
                       cwd=cwd)
    before = pipeline.listing(area)
    child.isolated(invoke, case, area, config, unprivileged=True, cwd=cwd)
    after = pipeline.listing(area)
    inside = os.path.relpath(output, area) + os.sep
    for name in sorted(set(before) | set(after)):
        if name.startswith(inside):
            continue
        if name not in before:
            require(name.startswith(case['log']), 'there is a new file %s',
                    name)
        elif not name.startswith(case['log']):
            require(before[name] == after.get(name), '%s is %s', name,
                    'changed' if name in after else 'removed')
    require(case['log'] in after, 'no log %s', case['log'])

    found = {n[len(inside):] for n in after if n.startswith(inside)}
    names = tile_names(case, found, spans, wants)
    expected = set()
    for (inner, outer), want, name in zip(spans, wants, names):
        if want is None:
            continue
        kinds = [(f, k) for f, k in pipeline.KINDS
                 if want['n'][k] is not None]
        expected.update('%s/%s_%s_%s.nc' % (f, name, k.lower(), d)
                        for f, k in kinds for d in geo.DIRECTIONS)
        expected.update(f + '/' + name + '.tif' for f in ('M3', 'M3_max'))
    if expected:
        expected.update(f + '/wind-multipliers.vrt'
                        for f in ('M3', 'M3_max'))
    require(found == expected, 'missing: %s, not expected: %s',
            sorted(expected - found)[:5], sorted(found - expected)[:5])
    folders = sorted(n for n in os.listdir(output)
                     if os.path.isdir(os.path.join(output, n)))
    require(folders == sorted(tiles.SUBDIRS), 'folders %s', folders)

    lively, rasters = set(), []
    for (inner, outer), want, name in zip(spans, wants, names):
        if want is not None:
            lively |= check_tile(case, output, name, inner, outer, want, ctx)
            rasters.append((name, inner))
    if rasters:
        check_mosaic(case, output, rasters)
    ctx.label(case['kind'], case['how'], 'before: ' + case['before'],
              'relative' if case['relative'] else 'absolute',
              '%d tiles' % len(spans) if len(spans) < 3 else '3+ tiles',
              'empty tile' if None in wants else '',
              'low: %s' % case['low'] if case.get('low') else '',
              'missing value: %s' % case['declared']
              if case.get('declared') else '',
              'no tile' if not rasters else '',
              'no class' if any(w and w['n']['Mz'] is None for w in wants)
              else '')
    ctx.count('tiles', len(rasters))
    ctx.nontrivial(len(lively) > 1)


def tile_names(case, found, spans, wants):
    """The name of each tile, by the place in the name of its raster"""
    out = []
    stems = [n[3:-4] for n in sorted(found)
             if n.startswith('M3/') and n.endswith('.tif')]
    for (inner, _), want in zip(spans, wants):
        x = case['x0'] + inner[1] * case['pw']
        y = -(case['y0'] - inner[0] * case['ph'])
        mine = []
        for stem in stems:
            try:
                lon, lat = stem[1:].split('s')
                if abs(float(lon) - x) < 0.0101 and \
                        abs(float(lat) - y) < 0.0101:
                    mine.append(stem)
            except ValueError:
                fail('name of a raster: %s', stem)
        if want is not None:
            require(len(mine) == 1, 'rasters of the tile at %s %s: %s', x,
                    -y, mine)
        out.append(mine[0] if mine else None)
    return out


def check_tile(case, output, name, inner, outer, want, ctx):
    r0, c0, r1, c1 = inner
    o0, p0 = outer[:2]
    cut = (slice(r0 - o0, r1 - o0), slice(c0 - p0, c1 - p0))
    p = {'x0': case['x0'], 'y0': case['y0'], 'pw': case['pw'],
         'ph': case['ph'], 'clip': list(inner)}
    got = pipeline.read(output, name)
    products = {}
    lively = set()
    for (kind, d), result in got.items():
        if want[d][kind] is None:
            continue
        values, lat, lon = result
        tiles.check_coordinates(p, lat, lon, '%s %s of %s' % (kind, d, name))
        lo, hi, sure = want[d][kind]
        lo, hi = lo[cut], hi[cut]
        sure = sure if sure is True else sure[cut]
        require(values.shape == lo.shape, '%s %s has shape %s', kind, d,
                values.shape)
        with np.errstate(invalid='ignore'):
            ok = (values >= lo - 3e-5) & (values <= hi + 3e-5)
        ok |= np.isnan(values) & np.isnan(lo)
        ok |= ~np.asarray(sure)
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            fail('%s %s of tile %s: %d of %d cells differ, first %s: %r, '
                 'expected %r to %r', kind, d, name, int((~ok).sum()),
                 ok.size, [int(k) for k in i], float(values[i]),
                 float(lo[i]), float(hi[i]))
        products[d] = products.get(d, 1.0) * values
        if (np.abs(np.nan_to_num(values, nan=1) - 1) > 1e-3).any():
            lively.add(kind)
    check_raster(case, output, name, inner, products)
    return lively


def check_raster(case, output, name, inner, products):
    want = np.array([products[d] for d in conv.ORDER])
    r0, c0, r1, c1 = inner
    corner = (case['x0'] + c0 * case['pw'], case['y0'] - r0 * case['ph'])
    for folder in ('M3', 'M3_max'):
        bands, gt, texts, nodata, _ = conv.read_tif(os.path.join(
            output, folder, name + '.tif'))
        bands = conv.missing(bands)
        require(abs(gt[0] - corner[0]) < 1e-3 * case['pw'] and
                abs(gt[3] - corner[1]) < 1e-3 * case['ph'] and
                abs(gt[1] / case['pw'] - 1) < 1e-4 and
                abs(gt[5] / case['ph'] + 1) < 1e-4,
                '%s of tile %s at %s with cells %s lies at %s', folder, name,
                corner, (case['pw'], case['ph']), gt)
        require(set(nodata) == {-9999.0}, '%s declares %s missing', folder,
                nodata)
        if folder == 'M3':
            require(bands.shape == want.shape, 'shape %s', bands.shape)
            ok = geo.close(bands, want, 3e-6)
            require(ok.all(), 'M3 of tile %s is not the product of its '
                    'multipliers in %d of %d cells', name, int((~ok).sum()),
                    ok.size)
        else:
            gone = np.isnan(want)
            maxima = np.where(gone, -1e9, want).max(axis=0)
            maxima[gone.all(axis=0)] = np.nan
            some = gone.any(axis=0) & ~gone.all(axis=0)
            require(bands.shape == (1,) + maxima.shape, 'shape %s',
                    bands.shape)
            ok = geo.close(bands[0], maxima, 3e-6) | some
            require(ok.all(), 'M3_max of tile %s is not the maximum of the '
                    'directions in %d of %d cells', name, int((~ok).sum()),
                    ok.size)


def check_mosaic(case, output, rasters):
    i0 = min(r[1][0] for r in rasters)
    j0 = min(r[1][1] for r in rasters)
    i1 = max(r[1][2] for r in rasters)
    j1 = max(r[1][3] for r in rasters)
    for folder in ('M3', 'M3_max'):
        want = None
        for name, (r0, c0, r1, c1) in rasters:
            bands = conv.read_tif(os.path.join(output, folder,
                                               name + '.tif'))[0]
            if want is None:
                want = np.full((len(bands), i1 - i0, j1 - j0), -9999.0)
            want[:, r0 - i0:r1 - i0, c0 - j0:c1 - j0] = bands
        got, gt, _, nodata, _ = conv.read_tif(os.path.join(
            output, folder, 'wind-multipliers.vrt'))
        require(got.shape == want.shape, 'the virtual raster of %s has shape '
                '%s instead of %s', folder, got.shape, want.shape)
        x, y = case['x0'] + j0 * case['pw'], case['y0'] - i0 * case['ph']
        require(abs(gt[0] - x) < 1e-3 * case['pw'] and
                abs(gt[3] - y) < 1e-3 * case['ph'], 'the virtual raster of '
                '%s lies at %s', folder, gt)
        ok = geo.close(conv.missing(got), conv.missing(want), 1e-9)
        require(ok.all(), 'the virtual raster of %s differs from its tiles '
                'in %d of %d cells', folder, int((~ok).sum()), ok.size)
