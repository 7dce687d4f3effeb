"""Inputs that are missing or damaged are refused."""
import hashlib
import logging
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

import all_multipliers
from shapely.geometry import box

from harness import child, conv, env, gen, geo, pipeline, shapes, tiles
from harness.core import REPO, Violation, require
from shielding import shield_mult
from terrain import terrain_mult
from topographic import topo_mult
from utilities import files
from utilities.convert import Converter, create_sub_dirs_for_convert
from utilities.shapefiles import shp_file

ID = 'P31'
QUICK = 9000
THOROUGH = 80000
RULE = ('A case is a step of the calculation, or a program, and an input of '
        'it that is missing, empty, a folder, a text, cut short or '
        'overwritten in part, in several formats and block sizes. Whether it '
        'can be read is decided by reading all of it with GDAL; if it cannot, '
        'the step must fail, or do with the part that is sound what it does '
        'with the sound file. Non-trivial: the input cannot be read.')
ASSUMPTIONS = ['an overwritten file that GDAL reads is not judged']
EXCEPTIONS = {}
PREPROCESSING = ('shapefile', 'settlement', 'land use', 'mask', 'topography',
                 'attribute')


def prepare():
    pipeline.prepare()
    for module in ('all_multipliers', 'pre_process'):
        EXCEPTIONS[module] = geo.exceptions_in(module)


RASTER_STEPS = ['grid', 'open', 'cut', 'landcover', 'match', 'calculate',
                'terrain', 'shield', 'topo']
OTHER_STEPS = ['terrain table', 'shielding table', 'shapefile', 'settlement',
               'land use', 'mask', 'topography', 'statistics', 'attribute',
               'convert', 'convert']
TABLE = [[1, 0.02, 100], [2, 0.4, 90], [3, 1.0, 80]]


@st.composite
def strategy(draw, tier):
    step = draw(st.sampled_from(RASTER_STEPS * 2 + OTHER_STEPS))
    if draw(st.sampled_from([False] * 34 + [True])):
        step = draw(st.sampled_from(
            ['run', 'run', 'run', 'all_multipliers.py', 'pre_process.py',
             'rasterize.py', 'rasterize.py']))
    rows = draw(st.one_of(st.integers(2, 12), st.integers(33, 70)))
    cols = draw(st.one_of(st.integers(2, 12), st.integers(33, 70)))
    r0, c0 = draw(st.integers(0, rows - 1)), draw(st.integers(0, cols - 1))
    return {'step': step, 'rows': rows, 'cols': cols,
            'window': [r0, c0, draw(st.integers(r0 + 1, rows)),
                       draw(st.integers(c0 + 1, cols))],
            'format': draw(st.sampled_from(['.tif', '.tif', '.img'])),
            'options': draw(st.sampled_from(
                ['', 'COMPRESS=DEFLATE', 'TILED=YES BLOCKXSIZE=16 '
                 'BLOCKYSIZE=16', 'TILED=YES BLOCKXSIZE=16 BLOCKYSIZE=16 '
                 'COMPRESS=LZW'])),
            'dtype': draw(st.sampled_from(['float32', 'int16', 'int32'])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'damage': draw(st.sampled_from(['missing', 'empty', 'folder',
                                            'text', 'cut', 'cut', 'cut',
                                            'over'])),
            'at': draw(gen.rounded(0, 1, 3)),
            'which': draw(st.sampled_from(['dem', 'lc', 'table'])),
            'x0': draw(gen.rounded(110, 150, 2)),
            'y0': draw(gen.rounded(-38, -12, 2)),
            'size': draw(st.sampled_from([0.0003, 0.001, 0.005]))}


def damage(path, case):
    """Spoil a file. The one before is kept under another name."""
    kind = case['damage']
    with open(path, 'rb') as f:
        body = f.read()
    os.rename(path, path + '.sound')
    if kind == 'missing':
        return
    if kind == 'folder':
        os.mkdir(path)
        return
    n = len(body)
    if kind == 'empty':
        body = b''
    elif kind == 'text':
        body = b'<html>not found</html>\n' * 3
    elif kind == 'cut':
        body = body[:min(int(case['at'] * n), n - 1)]
    else:
        k = min(int(case['at'] * n), n - 1)
        body = body[:k] + b'\xff' * min(40, n - k) + body[k + 40:]
    with open(path, 'wb') as f:
        f.write(body)


def damage_table(path, seed):
    """A line with too many values, or without a class"""
    with open(path) as f:
        lines = f.read().splitlines()
    n = len(lines[0].split(','))
    line = ['7,' * n + '7', '7,' * (n + 3) + '7', 'a note', 'x,' * (n - 1),
            '12 to 14' + ',1' * (n - 1)][seed % 5]
    # the first line of values tells how many there are
    lines.insert(2 + seed % (len(lines) - 1), line)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def readable(path, like):
    """
    True if all of a raster can be read, None if it can but is a different
    one
    """
    good = geo.gdal.Open(like)
    try:
        ds = geo.gdal.Open(path)
    except (RuntimeError, UnicodeError):
        return False
    try:
        if describe(ds) != describe(good):
            return None
    except (RuntimeError, UnicodeError):
        # what is damaged is not the values
        return None
    try:
        a = ds.ReadAsArray()
    except (RuntimeError, UnicodeError):
        return False
    if np.array_equal(a, good.ReadAsArray(), equal_nan=True):
        return True
    return None


def describe(ds):
    return (ds.RasterXSize, ds.RasterYSize, ds.RasterCount,
            ds.GetRasterBand(1).DataType, ds.GetGeoTransform(),
            ds.GetProjection())


class Record(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def attempt(function, *args, **kwargs):
    """(result, error) of a function that may refuse its input"""
    try:
        return function(*args, **kwargs), None
    except Violation:
        raise
    except SystemExit as exc:
        require(exc.code not in (None, 0), 'ends with status %r, as if all '
                'were well', exc.code)
        return None, exc
    except Exception as exc:
        return None, exc


def check(case, ctx):
    root = logging.getLogger()
    level = root.level
    record = Record()
    root.addHandler(record)
    root.setLevel(logging.INFO)
    try:
        if case['step'] in RASTER_STEPS:
            check_raster(case, ctx, record)
        elif case['step'] == 'convert':
            check_convert(case, ctx, record)
        elif case['step'] in OTHER_STEPS:
            check_other(case, ctx, record)
        else:
            check_program(case, ctx)
    finally:
        root.removeHandler(record)
        root.setLevel(level)
    ctx.label(case['step'], case['damage'])


def snapshot(folder):
    out = {}
    for where, folders, names in os.walk(folder):
        for name in names:
            p = os.path.join(where, name)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, folder)] = hashlib.md5(
                    f.read()).hexdigest()
    return out


def named(path, error, record):
    """The user is told which file is not there"""
    require(any(os.path.basename(path) in str(t) for t in record.lines +
                [error, getattr(error, 'filename', '')]), 'a file %s that is '
            'missing is not named: %r, log %s', os.path.basename(path),
            error, record.lines[-4:])


def arrays(case):
    rng = np.random.RandomState(case['seed'])
    rows, cols = case['rows'], case['cols']
    dem = 300 * rng.rand(rows, cols) + 1
    lc = rng.randint(1, 4, (rows, cols))
    return dem, lc


def write(path, a, case, options=True):
    x0, y0, s = case['x0'], case['y0'], case['size']
    dtype = case['dtype']
    if not (path.endswith('.tif') and options and case['options']):
        return geo.write_raster(path, a, x0, y0, s, s, dtype)
    mem = geo.mem_raster(a, x0, y0, s, s, dtype)
    geo.gdal.Translate(path, mem,
                       creationOptions=case['options'].split()).FlushCache()
    return path


def step_of(case, ctx, path, good, out):
    """What the step makes of a file: arrays, or a description"""
    x0, y0, s = case['x0'], case['y0'], case['size']
    rows, cols = case['rows'], case['cols']
    r0, c0, r1, c1 = case['window']
    extent = geo.extent_of(x0, y0, s, s, c0, r0, c1, r1)
    whole = geo.extent_of(x0, y0, s, s, 0, 0, cols, rows)
    os.mkdir(out)
    tiles.make_folders(out)
    all_multipliers.output_folder = out
    step = case['step']
    if step == 'grid':
        grid = all_multipliers.TileGrid(0.01, path)
        return [[grid.num_tiles, grid.x_dim, grid.y_dim] + list(
            map(float, grid.get_tile_extent(0)))]
    if step in ('open', 'cut'):
        job = all_multipliers.Multipliers('none', path)
        job.open_dem()
        if step == 'open':
            return [[job.pixelwidth, job.pixelheight]]
        made = job.cut_dem(['t', extent, extent])
        return [geo.read_raster(made)[0]]
    if step in ('landcover', 'match'):
        made = os.path.join(out, 'made.img')
        source = path if step == 'landcover' else good
        match = good if step == 'landcover' else path
        all_multipliers.reproject_dataset(source, match, made)
        return [geo.read_raster(made)[0]]
    info = ['t', whole, whole]
    tile = os.path.join(out, 't' + case['format'])
    if os.path.isdir(path):
        os.mkdir(tile)
    elif os.path.exists(path):
        with open(path, 'rb') as f, open(tile, 'wb') as g:
            g.write(f.read())
    if step == 'calculate':
        all_multipliers.Multipliers(good, good).multipliers_calculate(
            tile, info)
    elif step == 'terrain':
        terrain_mult.terrain(tile, whole)
    elif step == 'shield':
        shield_mult.shield(good, tile, whole)
    else:
        topo_mult.topomult(tile, whole)
    found = []
    for where, folders, names in sorted(os.walk(out)):
        for name in sorted(names):
            if name.endswith('.nc'):
                found.append(geo.read_raster(os.path.join(where, name))[0])
    return found


def check_raster(case, ctx, record):
    step = case['step']
    folder = ctx.path('in')
    os.mkdir(folder)
    geo.set_config(ctx, TABLE)
    dem, lc = arrays(case)
    is_lc = step in ('landcover', 'terrain')
    path = write(os.path.join(folder, 'input' + case['format']),
                 lc if is_lc else dem, case)
    good = write(os.path.join(folder, 'good.img'), lc, case, False)
    damage(path, case)
    state = readable(path, path + '.sound')
    if state is not False:
        ctx.label('not judged')
        return
    before = snapshot(folder)
    with geo.as_started(EXCEPTIONS.get('all_multipliers')):
        got, error = attempt(step_of, case, ctx, path, good, ctx.path('out'))
    require(snapshot(folder) == before, 'the inputs are changed')
    if error is None:
        want = step_of(case, ctx, path + '.sound', good, ctx.path('out2'))
        same = len(got) == len(want) and all(
            np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
            for a, b in zip(got, want))
        require(same, '%s is done with a raster (%s, %s) that cannot be '
                'read, and gives what is not in it', step, case['format'],
                case['damage'])
        ctx.label('the sound part')
    else:
        require(not isinstance(error, NameError), '%s fails with %r', step,
                error)
        if case['damage'] == 'missing' and step in (
                'grid', 'open', 'cut', 'landcover', 'match'):
            require(isinstance(error, OSError), '%s fails with %r for a file '
                    'that does not exist', step, error)
            named(path, error, record)
        for where, folders, names in os.walk(ctx.path('out')):
            left = [n for n in names if n.endswith('.nc')]
            require(not left, '%s fails and leaves %s', step, left)
    ctx.nontrivial()


def check_convert(case, ctx, record):
    """
    One of the multipliers of a tile is damaged: it is refused, or said to be
    taken for ones
    """
    root, tile = ctx.path('out'), 'e1.0s2.0'
    rows, cols = min(case['rows'], 20), min(case['cols'], 20)
    spec = {'seed': case['seed'], 'levels': 1000, 'cells': [], 'files': []}
    values = conv.build(spec, rows, cols)
    create_sub_dirs_for_convert(root)
    conv.write(root, tile, spec, values, case['x0'], case['y0'],
               case['size'], case['size'])
    kind, d = conv.KINDS[case['seed'] % 3], conv.ORDER[case['seed'] // 3 % 8]
    path = os.path.join(root, kind[0], '%s_%s_%s.nc' % (
        tile, kind[1].lower(), d))
    damage(path, case)
    sound = ctx.path('sound.nc')
    os.rename(path + '.sound', sound)
    before = snapshot(root)
    with geo.as_started(EXCEPTIONS.get('all_multipliers')):
        _, error = attempt(Converter([tile], root).run)
    after = snapshot(root)
    require({k: v for k, v in after.items() if k.endswith('.nc')} == before,
            'the inputs are changed')
    ctx.nontrivial()
    if error is not None:
        require(not isinstance(error, NameError), 'convert: %r', error)
        return
    got = conv.read_tif(os.path.join(root, 'M3', tile + '.tif'))[0]
    if geo.close(got, conv.expected(spec, values)[0], 2e-6).all():
        # the damage is where there is nothing of use
        ctx.label('the sound part')
        return
    with geo.as_started(True):
        if case['damage'] != 'missing' and readable(path, sound) is not False:
            # the netCDF library reads zeros beyond the end of a file
            ctx.label('not judged')
            return
    ones = dict(spec, files=['%s_%s' % (kind[1], d)])
    ok = geo.close(got, conv.expected(ones, values)[0], 2e-6)
    require(ok.all(), 'a multiplier that is damaged (%s) is converted to '
            'values that are not in it', case['damage'])
    require(any(os.path.basename(path) in t for t in record.lines),
            'a multiplier that cannot be read counts as ones, and the log '
            'does not tell')
    ctx.label('counts as ones')


def features(case):
    place = (case['x0'], case['y0'], 0.01)
    return (place, [[['one', [[0, 0, 5, 5]]], {'SOS_NAME_2': 'Urban'}]],
            [[['one', [[2, 2, 7, 7]]], {'MESHBLOCK_': 'Parkland'}]])


def check_other(case, ctx, record):
    step = case['step']
    folder = ctx.path('in')
    os.mkdir(folder)
    if step in ('terrain table', 'shielding table'):
        config_ = geo.set_config(ctx, TABLE)
        path = config_.get('inputValues', 'terrain_table')
        if case['damage'] in ('over', 'cut'):
            case = dict(case, damage='line')
        if case['damage'] == 'line':
            damage_table(path, case['seed'])
        else:
            damage(path, case)
        tiles.make_folders(ctx.scratch)
        lc = write(ctx.path('lc.tif'), arrays(case)[1], case)

        def use():
            if step == 'terrain table':
                terrain_mult.terrain_class2mz_orig(
                    arrays(case)[1], terrain_mult.get_terrain_table())
            else:
                shield_mult.terrain_class2ms_orig(lc)
        call = (use,)
    elif step == 'statistics':
        path = os.path.join(folder, 'f.txt')
        with open(path, 'w') as f:
            f.write('some text')
        if case['damage'] != 'folder':
            case = dict(case, damage='missing')
        damage(path, case)
        f = [files.fl_get_stat, files.fl_load_file][case['seed'] % 2]
        call = (f, path)
    else:
        import pre_process
        place, settlements, areas = features(case)
        paths = {}
        for name, feats, props in (
                ('settlement', settlements, {'SOS_NAME_2': 'str'}),
                ('land use', areas, {'MESHBLOCK_': 'str'}),
                ('mask', areas, {'MESHBLOCK_': 'str'})):
            paths[name] = shapes.write(
                os.path.join(folder, name + '.shp'),
                [(shapes.geometry(g, place), a) for g, a in feats], props)
        paths['topography'] = write(os.path.join(
            folder, 'topo' + case['format']), arrays(case)[0], case)
        if step == 'attribute':
            # the shapefile has no such attribute
            case = dict(case, damage='other name')
            path = paths['land use']
            name = ['CAT', 'MESHBLOCK', 'cat', 'MESHBLOCK_2'][
                case['seed'] % 4]
            call = (pre_process.rasterize, path, ctx.path('out.tif'),
                    paths['topography'], None, name)
        elif step == 'shapefile':
            path = paths['land use']
            call = (shp_file().read, path)
        elif step == 'topography':
            path = paths[step]
            call = (pre_process.rasterize, paths['land use'],
                    ctx.path('out.tif'), path, None, 'MESHBLOCK_')
        else:
            path = paths[step]
            call = (pre_process.pre_process, paths['settlement'],
                    'SOS_NAME_2', paths['land use'], 'MESHBLOCK_',
                    paths['mask'], ctx.path('out.shp'))
        if case['damage'] == 'over' or (case['damage'] == 'cut' and
                                        step == 'topography'):
            case = dict(case, damage='empty')
        if case['damage'] == 'cut':
            # the header of a shapefile is 100 bytes
            case = dict(case, at=min(case['at'], 0.4))
        if step != 'attribute':
            damage(path, case)
            os.rename(path + '.sound', ctx.path('sound'))
    before = snapshot(folder)
    with geo.as_started(EXCEPTIONS.get(
            'pre_process' if step in PREPROCESSING else 'all_multipliers')):
        _, error = attempt(*call)
    require(snapshot(folder) == before, 'the inputs are changed')
    require(error is not None, 'the %s is accepted although it is %s', step,
            case['damage'])
    require(not isinstance(error, NameError), '%s: %r', step, error)
    for name in ('out.shp', 'out.tif'):
        require(not os.path.exists(ctx.path(name)), 'there is an output, '
                'although the %s is %s', step, case['damage'])
    if case['damage'] == 'missing':
        named(path, error, record)
    ctx.nontrivial()


def run_inside(cfg, area):
    import sys
    sys.argv = ['all_multipliers.py', '-c', cfg]
    with env.Guard(area) as guard, \
            geo.as_started(EXCEPTIONS.get('all_multipliers')):
        _, error = attempt(all_multipliers.run)
    return repr(error), guard.escaped, error is not None


def check_program(case, ctx):
    step = case['step']
    area = ctx.path('area')
    os.mkdir(area)
    dem, lc = arrays(case)
    place, settlements, areas = features(case)
    paths = {}
    for name, feats in (('settlement', settlements), ('land', areas)):
        for _, a in feats:
            a.update({'CAT': 1})
        paths[name] = shapes.write(
            os.path.join(area, name + '.shp'),
            [(shapes.geometry(g, place), a) for g, a in feats],
            {list(feats[0][1])[0]: 'str', 'CAT': 'int'})
    x0, y0, s = case['x0'], case['y0'], case['size']
    paths['mask'] = shapes.write(
        os.path.join(area, 'mask.shp'),
        [(box(x0 - s / 2, y0 - s * (case['rows'] + 0.5), x0 + s *
              (case['cols'] + 0.5), y0 + s / 2), {'NAME': 'm'})],
        {'NAME': 'str'})
    crop = step == 'rasterize.py' and case['seed'] % 2 == 0
    paths['dem'] = write(os.path.join(area, 'dem' + case['format']), dem,
                         case)
    paths['lc'] = write(os.path.join(area, 'lc' + case['format']), lc, case)
    paths['table'] = geo.write_table(os.path.join(area, 'table.csv'), TABLE)
    cfg = geo.write_config(
        os.path.join(area, 'my.cfg'), area, paths['lc'], paths['table'],
        paths['dem'], os.path.join(area, 'out'), extra=(
            '\n[Preprocessing]\nsettlement_data = %s\nsettlement_cat = '
            'SOS_NAME_2\nland_use_data = %s\nland_use_cat = MESHBLOCK_\n'
            'crop_mask = None\noutput_shapefile = %s\noutput_rasterized = %s'
            '\ninput_topo = True\n' % (
                paths['settlement'], paths['land'],
                os.path.join(area, 'cut.shp'),
                os.path.join(area, 'cut.tif'))))
    which = {'pre_process.py': ['settlement', 'land', 'dem'],
             'rasterize.py': ['land', 'dem']}.get(
                 step, ['dem', 'lc', 'table'])
    if crop:
        which = ['land', 'dem', 'mask', 'mask']
    which = which[case['seed'] // 6 % len(which)]
    if case['damage'] in ('text', 'over', 'cut') and which in (
            'table', 'settlement', 'land', 'mask'):
        case = dict(case, damage='missing')
    if which == 'dem' and step in ('pre_process.py', 'rasterize.py') and \
            case['damage'] in ('over', 'cut'):
        # the elevations are not used
        case = dict(case, damage='empty')
    path = paths[which]
    args = {'rasterize.py': ['-i', paths['land'], '-t', paths['dem']] +
            (['-c', paths['mask']] if crop else [])}.get(step, ['-c', cfg])

    def start():
        return subprocess.run(
            [env.PYTHON, os.path.join(REPO, step)] + args, cwd=area,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            env=dict(os.environ, PYTHONPATH='', HOME=area)).returncode

    # over the outputs of an earlier run, or not
    earlier = step != 'run' and case['seed'] % 5 < 2
    if earlier:
        child.open_up(ctx.scratch)
        child.give(area)
        status = child.isolated(start, unprivileged=True, cwd=area)
        require(status == 0, '%s ends with status %r with sound inputs',
                step, status)
        ctx.label('over earlier outputs')
    if step == 'rasterize.py' and case['seed'] % 3 == 0:
        # the inputs are sound, but not what is asked of them
        args += ['-a', 'KATEGORIE']
        case = dict(case, damage='missing an attribute')
        which = 'shapefile'
    else:
        damage(path, case)
        os.rename(path + '.sound',
                  ctx.path('sound' + os.path.splitext(path)[1]))
    sound = ctx.path('sound' + os.path.splitext(path)[1])
    if which in ('dem', 'lc') and readable(path, sound) is not False:
        ctx.label('not judged')
        return
    child.open_up(ctx.scratch)
    child.give(area)
    if step == 'run':
        error, escaped, failed = child.isolated(
            run_inside, cfg, area, unprivileged=True, cwd=area)
        require(not escaped, 'deletes %s', escaped)
        require(failed, 'a run ends well although the %s is %s (%s)', which,
                case['damage'], case['format'])
    else:
        status = child.isolated(start, unprivileged=True, cwd=area)
        require(status != 0, '%s ends with status 0 although the %s is %s '
                '(%s)', step, which, case['damage'], case['format'])
    made = [n for n in snapshot(area) if n.endswith('.nc') or
            n in ('cut.tif', 'test.tiff') or n.endswith('.vrt')]
    require(not made or earlier, 'there are outputs %s although the %s is %s', made[:5],
            which, case['damage'])
    ctx.nontrivial()
