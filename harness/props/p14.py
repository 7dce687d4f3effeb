"""Every tile is converted once and lies in the virtual rasters."""
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

from harness import conv, env, gen, geo, ranks
from harness.core import REPO, require
from utilities import mpi_runner
from utilities.convert import Converter, create_sub_dirs_for_convert
from utilities.parallel import DummyCommWorld

ID = 'P14'
QUICK = 800
THOROUGH = 9000
RULE = ('A case is a folder of 0 to 7 tiles of a grid, the number of '
        'processes, the timing of their communication, and whether they are '
        'forked processes or threads, or the program that converts '
        'alone. Each tile converted is counted, its '
        'rasters are compared with the product and maximum, and the virtual '
        'rasters with the mosaic of the tiles. Non-trivial: at least two '
        'tiles.')
ASSUMPTIONS = ['processes communicate through the mpi4py interface, here '
               'replaced by a stand-in']


@st.composite
def strategy(draw, tier):
    many = draw(st.sampled_from([False] * 24 + [True]))
    top = 7 if many else 3
    grid = [draw(st.integers(1, top)), draw(st.integers(1, top))]
    heights = [draw(st.integers(2, 5)) for _ in range(grid[0])]
    widths = [draw(st.integers(2, 5)) for _ in range(grid[1])]
    cells = [[i, j] for i in range(grid[0]) for j in range(grid[1])]
    keep = draw(st.one_of(
        st.just(cells),
        st.lists(st.sampled_from(cells), max_size=7,
                 unique_by=lambda x: tuple(x))))[:49 if many else 7]
    size = draw(st.one_of(st.integers(1, 4), st.integers(1, 10)))
    return {
        'heights': heights, 'widths': widths, 'tiles': keep,
        'x0': draw(gen.rounded(-170, 170, 2)),
        'y0': draw(gen.rounded(-60, 60, 2)),
        'step': draw(st.sampled_from([0.1, 0.25, 0.0025])),
        'values': [draw(conv.tile_values(
            missing=False, absent=draw(st.sampled_from(
                [False, False, True])))) for _ in keep[:7]],
        'size': size, 'choices': draw(st.lists(st.integers(0, 9),
                                               max_size=12)),
        'sync': draw(st.booleans()),
        'how': draw(st.sampled_from(['threads'] * 6 + ['processes'] +
                                    (['dummy', 'dummy', 'program']
                                     if size == 1 else []))),
        'folders': draw(st.booleans()),
        'over': draw(st.booleans()), 'whole': draw(st.booleans()),
        'relative': draw(st.booleans())}


class Counting(Converter):
    """Writes down the tiles that are converted."""

    log = None

    def process_tile(self, tile):
        with open(self.log, 'a') as f:
            f.write(tile + '\n')
        return Converter.process_tile(self, tile)


def check(case, ctx):
    root = ctx.path('out')
    hs, ws, step = case['heights'], case['widths'], case['step']
    r_off = [0] + list(np.cumsum(hs))
    c_off = [0] + list(np.cumsum(ws))
    tiles = {}
    for folder in ('terrain', 'shielding', 'topographic'):
        os.makedirs(os.path.join(root, folder))
    if case['over'] or case['folders'] or case['how'] != 'program':
        create_sub_dirs_for_convert(root)
    for k, (i, j) in enumerate(case['tiles']):
        spec = case['values'][k % 7]
        spec = dict(spec, seed=spec['seed'] + k)
        x0 = case['x0'] + c_off[j] * step
        y0 = case['y0'] - r_off[i] * step
        name = 'e%.4fs%.4f' % (x0, -y0)
        v = conv.build(spec, hs[i], ws[j])
        conv.write(root, name, spec, v, x0, y0, step, step)
        tiles[name] = (i, j) + conv.expected(spec, v)[:2]
    if case['over']:
        for folder in ('M3', 'M3_max'):
            # of an earlier conversion, with fewer tiles
            for name in list(tiles)[:1]:
                i, j = tiles[name][:2]
                conv.earlier(root, folder, name, hs[i], ws[j],
                             case['x0'] + c_off[j] * step,
                             case['y0'] - r_off[i] * step, step, step,
                             case.get('whole'))
                geo.gdal.BuildVRT(
                    os.path.join(root, folder, 'wind-multipliers.vrt'),
                    [os.path.join(root, folder, name + '.tif')])
    path = os.path.relpath(root) if case['relative'] else root
    Counting.log = ctx.path('log')
    was = mpi_runner.Converter
    mpi_runner.Converter = Counting

    def run(comm):
        mpi_runner.parallelise_convert_on_tiles(path, comm)

    try:
        if case['how'] == 'dummy':
            run(DummyCommWorld())
        elif case['how'] == 'program':
            p = subprocess.run(
                [env.PYTHON, '-m', 'utilities.mpi_runner', '-p', path],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=dict(os.environ, PYTHONPATH=REPO))
            require(p.returncode == 0, 'the program ends with %d: %s',
                    p.returncode, p.stdout.decode(errors='replace')[-600:])
        else:
            runner = ranks.run_processes if case['how'] == 'processes' \
                else ranks.run_threads
            runner(case['size'], run, case['choices'], case['sync'])
    finally:
        mpi_runner.Converter = was
    if os.path.exists(Counting.log):
        with open(Counting.log) as f:
            done = f.read().split()
    else:
        done = []
    # (nothing counted: the conversion is organised in another way)
    require(sorted(done) == sorted(tiles) or not done,
            '%d of %d tiles converted, %d of them more than once, by %d '
            'processes', len(set(done)), len(tiles),
            len(done) - len(set(done)), case['size'])
    for folder in ('M3', 'M3_max'):
        files = sorted(os.listdir(os.path.join(root, folder)))
        want = sorted([n + '.tif' for n in tiles] +
                      (['wind-multipliers.vrt'] if tiles else []))
        require(files == want, '%s holds %s for tiles %s', folder, files,
                sorted(tiles))
    if tiles:
        check_mosaic(case, root, tiles, r_off, c_off, step)
    ctx.label(case['how'], 'no tile' if not tiles else '',
              'more processes than tiles' if case['size'] > len(tiles)
              else 'several tiles for a process')
    ctx.nontrivial(len(tiles) > 1)


def check_mosaic(case, root, tiles, r_off, c_off, step):
    i0 = min(t[0] for t in tiles.values())
    j0 = min(t[1] for t in tiles.values())
    i1 = max(t[0] for t in tiles.values()) + 1
    j1 = max(t[1] for t in tiles.values()) + 1
    rows, cols = r_off[i1] - r_off[i0], c_off[j1] - c_off[j0]
    want = np.full((9, rows, cols), np.nan)
    for name, (i, j, product, maxima) in tiles.items():
        r, c = r_off[i] - r_off[i0], c_off[j] - c_off[j0]
        block = np.concatenate([product, maxima[None]])
        want[:, r:r + block.shape[1], c:c + block.shape[2]] = block
        for folder, part in (('M3', block[:8]), ('M3_max', block[8:])):
            got = conv.missing(conv.read_tif(os.path.join(
                root, folder, name + '.tif'))[0])
            require(got.shape == part.shape and
                    geo.close(got, part, 2e-6).all(),
                    'tile %s of %s holds other values', name, folder)
    for folder, part in (('M3', want[:8]), ('M3_max', want[8:])):
        vrt = os.path.join(root, folder, 'wind-multipliers.vrt')
        got, gt, _, nodata, _ = conv.read_tif(vrt)
        require(got.shape == part.shape, 'the virtual raster of %s has shape '
                '%s for tiles of %s cells', folder, got.shape, part.shape)
        origin = (case['x0'] + c_off[j0] * step,
                  case['y0'] - r_off[i0] * step)
        require(abs(gt[0] - origin[0]) < 1e-3 * step and
                abs(gt[3] - origin[1]) < 1e-3 * step and
                abs(gt[1] - step) < 1e-6 and abs(gt[5] + step) < 1e-6,
                'the virtual raster of %s lies at %s', folder, gt)
        require(all(x is not None for x in nodata) and
                set(nodata) == {-9999.0},
                'the virtual raster of %s declares %s missing', folder,
                nodata)
        got = conv.missing(got)
        ok = geo.close(got, part, 2e-6)
        require(ok.all(), 'the virtual raster of %s differs from its tiles in '
                '%d of %d cells', folder, int((~ok).sum()), ok.size)
