"""Outputs that cannot be written are an error, and a later run makes them."""
import logging
import os
import resource
import shutil
import signal
import sys

import numpy as np
from hypothesis import strategies as st

import all_multipliers
from harness import child, conv, env, gen, geo, pipeline, shapes, tiles
from harness.core import HarnessError, Violation, fail, require
from shielding import shield_mult
from terrain import terrain_mult
from topographic import topo_mult
from utilities import files, mpi_runner, nctools
from utilities.parallel import attempt_parallel
from utilities.shapefiles import shp_file

ID = 'P32'
QUICK = 1300
THOROUGH = 8000
RULE = ('A case is a step that writes files, or a whole run, and what keeps '
        'it from writing: no file may be longer than a number of bytes, the '
        'folder is missing or read only, or a folder is where a file should '
        'be. The step must fail, or its outputs must read as those that are '
        'written without hindrance; started again when the cause is gone, '
        'it must make them all. Non-trivial: the step fails.')
ASSUMPTIONS = ['the raster of pre_process.py is left out: GDAL reports '
               'nothing when a GeoTIFF without compression is cut short',
               'the log is not an output']
EXCEPTIONS = {}


def prepare():
    pipeline.prepare()
    for module in ('all_multipliers', 'pre_process'):
        EXCEPTIONS[module] = geo.exceptions_in(module)


# what is written by each step, relative to the folder of outputs
DIRECTIONS = geo.DIRECTIONS


def many(folder, kind):
    return ['%s/t_%s_%s.nc' % (folder, kind, d) for d in DIRECTIONS]


STEPS = {
    'multiplier': ['t_mz_n.nc'],
    'cut': ['t_dem.img'],
    'landcover': ['t.img'],
    'shielding table': ['shielding/t_ms.img'],
    'terrain': many('terrain', 'mz'),
    'shield': many('shielding', 'ms'),
    'topo': many('topographic', 'mt'),
    'tile': many('terrain', 'mz') + many('shielding', 'ms') +
    many('topographic', 'mt'),
    'convert': ['M3/e%d.0s2.0.tif', 'M3_max/e%d.0s2.0.tif',
                'M3/wind-multipliers.vrt', 'M3_max/wind-multipliers.vrt'],
    'shapefile': ['o.shp'],
    'pre_process': ['o.shp'],
    'table': ['t.csv'],
    'new table': ['new/t.csv'],
    'run': None,
}
TABLE = [[1, 0.02, 100], [2, 0.4, 90], [3, 1.0, 80]]


@st.composite
def strategy(draw, tier):
    step = draw(st.sampled_from(sorted(STEPS) * 3 + [
        'run', 'convert', 'multiplier', 'cut', 'landcover', 'shielding table'] * 3))
    if step == 'run':
        step = draw(st.sampled_from(['run', 'run', 'convert']))
    small = st.integers(2, 14)
    rows = draw(st.one_of(small, small, st.integers(30, 70)))
    cols = draw(st.one_of(small, small, st.integers(30, 70)))
    size = draw(st.sampled_from([0.0003, 0.001, 0.005]))
    if step == 'run':
        # a run of several tiles in half of the cases
        size = draw(st.sampled_from([size, 0.03]))
    fault = draw(st.sampled_from(['limit'] * 4 + [
        'no folder', 'a folder', 'read only', 'read only file']))
    return {'step': step, 'rows': rows, 'cols': cols, 'fault': fault,
            # the longest file allowed, of the length of one of them
            'part': draw(st.one_of(gen.rounded(0, 1, 3),
                                   st.sampled_from([0, 1]))),
            'less': draw(st.sampled_from([0, 1, 2, 10, 100])),
            'which': draw(st.integers(0, 10 ** 4)),
            'seed': draw(st.integers(0, 10 ** 6)),
            'earlier': draw(st.booleans()),
            # of the conversion
            'tiles': draw(st.integers(1, 3)),
            # of the land cover
            'dtype': draw(st.sampled_from(['float32', 'uint8', 'float64'])),
            'x0': draw(gen.rounded(110, 150, 2)),
            'y0': draw(gen.rounded(-38, -12, 2)),
            'size': size}


class Work(object):
    """Inputs of a case, and what is done with them"""

    def __init__(self, case, ctx):
        self.case = case
        self.area = ctx.path('area')
        self.source = os.path.join(self.area, 'in')
        self.out = os.path.join(self.area, 'out')
        os.makedirs(self.source)
        self.fill(case['seed'])

    def fill(self, seed):
        case = self.case
        rng = np.random.RandomState(seed)
        rows, cols = case['rows'], case['cols']
        x0, y0, s = case['x0'], case['y0'], case['size']
        self.extent = geo.extent_of(x0, y0, s, s, 0, 0, cols, rows)
        self.dem = 300 * rng.rand(rows, cols) + 1
        lc = rng.randint(1, 4, (rows, cols))
        self.files = {}
        for name, a, dtype in (('dem', self.dem, 'float32'),
                               ('lc', lc, case['dtype'])):
            self.files[name] = geo.write_raster(
                os.path.join(self.source, name + '.img'), a, x0, y0, s, s,
                dtype)
        table = geo.write_table(os.path.join(self.source, 'table.csv'),
                                TABLE)
        self.config = geo.write_config(
            os.path.join(self.source, 'my.cfg'), self.source,
            self.files['lc'], table, self.files['dem'], self.out,
            upwind_length=s * 3)
        if case['step'] in ('shapefile', 'pre_process'):
            place = (x0, y0, 0.01)
            for name, feats in (
                    ('settlement', [[['one', [[0, 0, 5, 5]]], 'Urban']]),
                    ('SOS', [[['one', [[k % 9, k // 9 % 9, k % 9 + 1,
                                        k // 9 % 9 + 1]]],
                              ['Water', 'Transport'][rng.randint(2)]]
                             for k in range(rows * cols % 60 + 1)])):
                self.files[name] = shapes.write(
                    os.path.join(self.source, name + '.shp'),
                    [(shapes.geometry(g, place), {'KIND': v})
                     for g, v in feats], {'KIND': 'str'})
        if case['step'] == 'convert':
            spec = {'seed': seed, 'levels': 1000, 'cells': [],
                    'files': []}
            # tiles next to each other, of different height
            self.values = [
                ('e%d.0s2.0' % (k + 1), spec,
                 conv.build(spec, max(2, rows // (k + 1)), cols),
                 x0 + k * cols * s, y0, s, s) for k in range(case['tiles'])]

    def make_folders(self):
        os.mkdir(self.out)
        if self.case['step'] not in ('new table', 'run'):
            tiles.make_folders(self.out)
        if self.case['step'] == 'convert':
            for name in ('M3', 'M3_max'):
                os.makedirs(os.path.join(self.out, name), exist_ok=True)
        self.place_inputs()

    def place_inputs(self):
        """The inputs that lie in the folder of outputs"""
        if self.case['step'] == 'convert':
            for values in self.values:
                conv.write(self.out, *values)
        if self.case['step'] in ('shielding table', 'terrain', 'shield',
                                 'topo'):
            # steps that write next to what they read
            for name, there in (('lc', 't.img'), ('dem', 't_dem.img')):
                shutil.copy(self.files[name], os.path.join(self.out, there))

    def outputs(self):
        names = STEPS[self.case['step']]
        if self.case['step'] == 'convert':
            names = [f % (k + 1) if '%' in f else f for f in names
                     for k in range(self.case['tiles'])]
            names = sorted(set(names))
        if names is None:
            names = [n for n in pipeline.listing(self.out)
                     if n.endswith(('.nc', '.tif', '.vrt'))]
        return sorted(names)

    def act(self):
        case = self.case
        step, out = case['step'], self.out
        rows, cols = case['rows'], case['cols']
        x0, y0, s = case['x0'], case['y0'], case['size']
        from utilities.config import configparser as config
        config.set_config_file(self.config)
        all_multipliers.output_folder = out
        info = ['t', self.extent, self.extent]
        job = all_multipliers.Multipliers(self.files['lc'],
                                          self.files['dem'])
        copy = os.path.join(out, 't.img')
        dem = os.path.join(out, 't_dem.img')
        if step == 'multiplier':
            nctools.save_multiplier(
                'Mz', self.dem, y0 - s * (np.arange(rows) + 0.5),
                x0 + s * (np.arange(cols) + 0.5),
                os.path.join(out, 't_mz_n.nc'))
        elif step == 'cut':
            job.open_dem()
            job.cut_dem(info)
        elif step == 'landcover':
            all_multipliers.reproject_dataset(
                self.files['lc'], self.files['dem'],
                os.path.join(out, 't.img'))
        elif step == 'shielding table':
            shield_mult.terrain_class2ms_orig(copy)
        elif step == 'terrain':
            terrain_mult.terrain(copy, self.extent)
        elif step == 'shield':
            shield_mult.shield(copy, dem, self.extent)
        elif step == 'topo':
            topo_mult.topomult(dem, self.extent)
        elif step == 'tile':
            job.open_dem()
            job.multipliers_calculate(job.cut_dem(info), info)
        elif step == 'convert':
            mpi_runner.parallelise_convert_on_tiles(
                out, attempt_parallel().COMM_WORLD)
        elif step == 'shapefile':
            shapes_ = shp_file()
            shapes_.read(self.files['SOS'])
            shapes_.save(os.path.join(out, 'o.shp'))
        elif step == 'pre_process':
            import pre_process
            pre_process.pre_process(
                self.files['settlement'], 'KIND', self.files['SOS'], 'KIND',
                'None', os.path.join(out, 'o.shp'))
        elif step in ('table', 'new table'):
            files.fl_save_file(os.path.join(out, STEPS[step][0]), self.dem)
        else:
            sys.argv = ['all_multipliers.py', '-c', self.config]
            all_multipliers.run()

    def start(self, limit=None):
        """
        True if the step ends well, in a process of its own where no file
        can grow beyond the limit
        """
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            status = 4
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                logging.raiseExceptions = False
                child.drop()
                os.chdir(self.area)
                os.environ['HOME'] = self.area
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                status = 3
                with env.Guard(self.area) as guard:
                    try:
                        if EXCEPTIONS.get(
                                'pre_process' if self.case['step'] in
                                ('shapefile', 'pre_process')
                                else 'all_multipliers') is False:
                            geo.gdal.DontUseExceptions()
                        self.act()
                        status = 0
                    except SystemExit as exc:
                        status = 3 if exc.code not in (None, 0) else 0
                    except NameError:
                        status = 5
                    except Exception:
                        if os.environ.get('VERIF_TRACE'):
                            import traceback
                            with open(os.environ['VERIF_TRACE'], 'a') as f:
                                traceback.print_exc(file=f)
                if guard.escaped:
                    status = 6
            finally:
                os._exit(status)
        try:
            _, status = os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
        if not os.WIFEXITED(status):
            # killed, as GDAL is sometimes when it closes what is cut short
            return False
        code = os.WEXITSTATUS(status)
        if code == 4:
            raise HarnessError('the case cannot be started')
        require(code != 5, '%s fails with a name that is not defined',
                self.case['step'])
        require(code != 6, '%s deletes files outside of its folder',
                self.case['step'])
        return code == 0

    def contents(self):
        """{name: what can be read of an output, or an error}"""
        found = {}
        for name in self.outputs():
            path = os.path.join(self.out, name)
            try:
                found[name] = content(path)
            except Violation:
                raise
            except Exception as exc:
                found[name] = 'unreadable (%s)' % type(exc).__name__
        return found


def content(path):
    if not os.path.isfile(path):
        return 'not there'
    if path.endswith('.csv'):
        return np.loadtxt(path, delimiter=',', comments='%').tolist()
    if path.endswith('.shp'):
        return [(g.wkt, sorted(a.items())) for g, a in shapes.read(path)[0]]
    if path.endswith('.nc'):
        kind = os.path.basename(path).split('_')[-2].capitalize()
        return [np.nan_to_num(x).tolist() for x in geo.read_nc(path, kind)]
    ds = geo.gdal.Open(path)
    return (np.nan_to_num(ds.ReadAsArray()).tolist(), ds.GetGeoTransform(),
            bool(ds.GetProjection()), ds.GetRasterBand(1).GetNoDataValue())


def hinder(work, case, sizes):
    """
    Bring about the fault. Returns the limit of lengths, and how to undo it.
    """
    fault = case['fault']
    names = sorted(sizes)
    name = names[case['which'] % len(names)]
    path = os.path.join(work.out, name)
    if fault == 'limit':
        # the longest output, or any, or a temporary file
        size = max(sizes.values()) if case['which'] % 2 else sizes[name]
        if case['step'] == 'run' and case['which'] % 3:
            size = max(size, 5000 + 8 * (case['rows'] + 63) // 64 * 64 *
                       ((case['cols'] + 63) // 64 * 64))
        return max(0, int(case['part'] * size) - case['less']), lambda: None
    folder = os.path.dirname(path)
    if fault == 'no folder':
        if folder == work.out or case['step'] in ('new table', 'run'):
            os.rename(work.out, work.out + '.away')
            if case['step'] in ('table', 'new table'):
                # a missing folder would be made
                with open(work.out, 'w') as f:
                    f.write('a file where the folder should be')
            return None, lambda: (
                os.path.isfile(work.out) and os.remove(work.out),
                os.rename(work.out + '.away', work.out))
        os.rename(folder, folder + '.away')
        return None, lambda: os.rename(folder + '.away', folder)
    if fault == 'a folder':
        keep = path + '.away'
        os.makedirs(folder, exist_ok=True)
        if os.path.exists(path):
            os.rename(path, keep)
        os.makedirs(os.path.join(path, 'sub'))
        shut = [path]
    else:
        os.makedirs(folder, exist_ok=True)
        keep = None
        if fault == 'read only file':
            if not os.path.exists(path):
                with open(path, 'w') as f:
                    f.write('not to be written over')
            shut = [path, folder] if case['less'] else [path]
        else:
            shut = [folder]
    child.give(work.area)
    modes = {p: os.stat(p).st_mode & 0o777 for p in shut}
    for p in shut:
        os.chmod(p, 0o555 if os.path.isdir(p) else 0o444)
        os.chown(p, 0, 0)

    def undo():
        for p, mode in modes.items():
            if not os.path.exists(p):
                # removed, as what could not be written
                continue
            os.chmod(p, mode)
            os.chown(p, child.NOBODY, child.NOBODY)
        if fault == 'a folder':
            shutil.rmtree(path)
            if os.path.exists(keep):
                os.rename(keep, path)
        if fault == 'read only file' and os.path.exists(path):
            os.remove(path)
    return None, undo


def renew(work):
    """An empty folder of outputs"""
    if os.path.isdir(work.out):
        shutil.rmtree(work.out)
    if work.case['step'] != 'run':
        work.make_folders()
    child.give(work.area)


def check(case, ctx):
    if os.getuid() != 0 and case['fault'] != 'limit':
        case = dict(case, fault='limit')
    step, fault = case['step'], case['fault']
    if step == 'run':
        # the folder of outputs is made anew in a run
        case = dict(case, fault='limit' if fault == 'a folder' else
                    'parent' if fault in ('no folder', 'read only',
                                          'read only file') else fault)
        fault = case['fault']
    work = Work(case, ctx)
    child.open_up(ctx.scratch)
    renew(work)
    require(work.start(), '%s fails with sound inputs', step)
    want = work.contents()
    require(want and not any(isinstance(v, str) for v in want.values()),
            '%s ends well, and its outputs are %s', step,
            {k: v for k, v in want.items() if isinstance(v, str)} or 'none')
    sizes = {n: os.path.getsize(os.path.join(work.out, n)) for n in want}
    # over the outputs of an earlier run, or not
    if not case['earlier'] or fault == 'parent':
        renew(work)
    else:
        ctx.label('over earlier outputs')
        # of other inputs
        work.fill(case['seed'] + 1)
        if step in ('shapefile', 'pre_process'):
            renew(work)
        elif step != 'run':
            work.place_inputs()
        child.give(work.area)
        require(work.start(), '%s fails over its outputs', step)
        work.fill(case['seed'])
        if step != 'run':
            work.place_inputs()
        child.give(work.area)
    inputs = pipeline.listing(work.source)
    if fault == 'parent':
        os.chmod(work.area, 0o555)
        os.chown(work.area, 0, 0)
        limit = None

        def undo():
            os.chown(work.area, child.NOBODY, child.NOBODY)
            os.chmod(work.area, 0o755)
    else:
        limit, undo = hinder(work, case, sizes)
    if limit is not None and case['earlier'] and step != 'run' and \
            case['which'] % 2:
        # what is there already must not count as written
        for name in sizes:
            with open(os.path.join(work.out, name), 'r+b') as f:
                f.truncate(0)
    try:
        done = work.start(limit)
        if done:
            got = work.contents()
            wrong = {n: v if isinstance(v, str) else 'different'
                     for n, v in got.items() if v != want.get(n)}
            wrong.update({n: 'not there' for n in want if n not in got})
            if wrong:
                fail('%s (%s, limit of %s bytes) ends well, and %s', step,
                     fault, limit, dict(sorted(wrong.items())[:3]))
    finally:
        undo()
    left = {k: v for k, v in pipeline.listing(work.source).items()
            if not k.endswith('.log')}
    before = {k: v for k, v in inputs.items() if not k.endswith('.log')}
    require(left == before, 'the inputs are changed')
    ctx.label(step, fault, 'ends well' if done else 'fails')
    if not done:
        # once more, with nothing in the way
        if step in ('shapefile', 'pre_process'):
            # what is no shapefile is not written over
            renew(work)
        require(work.start(), '%s fails after a run that could not write '
                '(%s)', step, fault)
        got = work.contents()
        wrong = sorted(n for n in want if got.get(n) != want[n])
        require(not wrong, '%s after a run that could not write (%s): %s '
                'differ', step, fault, wrong[:3])
    ctx.nontrivial(not done)
