"""A tile is the same whatever tiles were processed before it."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from harness import env, gen, geo, pipeline, tiles
from harness.child import isolated
from harness.core import fail, require

ID = 'P29'
QUICK = 260
THOROUGH = 4000
RULE = ('A case is one or two pairs of DEM and land cover rasters and a '
        'history of 2 to 5 tiles cut from them, some of the same shape and '
        'some repeated, processed in one process with files of other tiles '
        'and strangers in the output folder. Each tile is compared exactly '
        'with the same tile in a process of its own, and the folder before '
        'and after each tile. Non-trivial: at least two different tiles with '
        'a multiplier other than 1.')


prepare = pipeline.prepare


@st.composite
def strategy(draw, tier):
    sources = []
    shape = [draw(st.integers(2, 16)), draw(st.integers(2, 16))]
    for _ in range(draw(st.integers(1, 2))):
        p = draw(tiles.place(lo=25.0, hi=200.0, max_size=8))
        if sources and draw(st.booleans()):
            # on the same meridian, or at the same place
            p = dict(sources[0], y0=sources[0]['y0'] +
                     draw(st.sampled_from([0.0, 9.0, -9.0, 25.0])))
        rows = shape[0] + draw(st.sampled_from([0, 0, 3]))
        cols = shape[1] + draw(st.sampled_from([0, 0, 4]))
        sources.append({
            'rows': rows, 'cols': cols, 'x0': p['x0'], 'y0': p['y0'],
            'pw': p['pw'], 'ph': p['ph'],
            'dem': draw(gen.dem_spec(rows, cols, kinds=[
                'hills', 'smooth', 'noise', 'plane', 'steps'])),
            'classes': draw(gen.class_spec(rows, cols, 3)),
            'dtype': draw(st.sampled_from(['float32', 'int32'])),
            'zero': draw(st.sampled_from([False] * 5 + [True]))})
    steps = []
    for _ in range(draw(st.integers(2, 4 if tier == 'quick' else 6))):
        s = draw(st.integers(0, len(sources) - 1))
        rows, cols = sources[s]['rows'], sources[s]['cols']
        how = draw(st.sampled_from(['whole', 'part', 'like']))
        if how == 'like' and steps:
            # the shape of the tile before, further down or to the right
            a, b = [steps[-1][1][i + 2] - steps[-1][1][i] for i in (0, 1)]
            a, b = min(a, rows), min(b, cols)
            r0 = draw(st.integers(0, rows - a))
            c0 = draw(st.integers(0, cols - b))
            outer = [r0, c0, r0 + a, c0 + b]
        elif how == 'whole':
            outer = [0, 0, rows, cols]
        else:
            r0, c0 = draw(st.integers(0, rows - 1)), draw(
                st.integers(0, cols - 1))
            outer = [r0, c0, draw(st.integers(r0 + 1, rows)),
                     draw(st.integers(c0 + 1, cols))]
        r0 = draw(st.integers(outer[0], outer[2] - 1))
        c0 = draw(st.integers(outer[1], outer[3] - 1))
        inner = draw(st.sampled_from([0, 1]))
        steps.append([s, outer, outer if inner else [
            r0, c0, draw(st.integers(r0 + 1, outer[2])),
            draw(st.integers(c0 + 1, outer[3]))]])
    return {'sources': sources, 'steps': steps,
            'name': draw(st.sampled_from(['tile%d', 'e14%d.0s30.0',
                                          'e1.%ds2.5', '%d'])),
            'again': draw(st.booleans()), 'one_job': draw(st.booleans()),
            # the table is edited before some steps, and some fail once
            'tables': draw(st.one_of(st.just([]), st.lists(
                st.integers(0, 1), min_size=6, max_size=6))),
            'faults': draw(st.one_of(st.just([]), st.lists(
                st.sampled_from(['', 'table', 'land cover']), min_size=6,
                max_size=6))),
            'table': [[1, 0.02, 100], [2, 0.4, 85],
                      [draw(st.sampled_from([3, 4])), 1, 75]]}


def build(case, ctx):
    files = []
    for i, s in enumerate(case['sources']):
        dem = gen.build_dem(s['dem'])
        if s['zero']:
            dem[:] = 0
        if s['dtype'] == 'int32':
            dem = np.round(dem)
        classes = gen.build_classes(s['classes']) + 1
        g = (s['x0'], s['y0'], s['pw'], s['ph'])
        files.append((
            geo.write_raster(ctx.path('dem%d.tif' % i), dem, *g,
                             dtype=s['dtype']),
            geo.write_raster(ctx.path('lc%d.img' % i), classes, *g,
                             dtype='int32')))
    return files


def info_of(case, step, name):
    s = case['sources'][step[0]]
    ext = [geo.extent_of(s['x0'], s['y0'], s['pw'], s['ph'], e[1], e[0],
                         e[3], e[2]) for e in step[1:]]
    return [name, ext[0], ext[1]]


def digest(result):
    """Values of the outputs as text, so that equal means identical"""
    out = {}
    for (kind, d), v in result.items():
        out['%s %s' % (kind, d)] = None if v is None else [
            list(v[0].shape), v[0].astype('float32').tobytes().hex(),
            v[1].tobytes().hex(), v[2].tobytes().hex()]
    return out


def values(text):
    return np.frombuffer(bytes.fromhex(text[1]),
                         dtype='float32').reshape(text[0])


def table_of(case, k):
    rows = case['table']
    if case.get('tables') and case['tables'][k]:
        return [[a[0], b[1], b[2]] for a, b in zip(rows, rows[1:] + rows[:1])]
    return rows


def try_in_vain(case, files, k, step, root, scratch):
    """Process a tile with inputs of which one is bad"""
    dem, lc = files[step[0]]
    # a land cover that is not that of the tile
    other = geo.gdal.Open(lc)
    classes = other.ReadAsArray() % 3 + 1
    gt = other.GetGeoTransform()
    other = None
    wrong = scratch.path('wrong%d.img' % k)
    if case['faults'][k] == 'table':
        geo.write_raster(wrong, classes, gt[0], gt[3], gt[1], -gt[5],
                         dtype='int32')
        with open(scratch.path('table.csv'), 'w') as f:
            f.write('CATEGORY,DESCRIPTION\n1,2\n')
    try:
        pipeline.process(root, dem, wrong,
                         [info_of(case, step, case['name'] % k)])
    except Exception:
        pass


def alone(case, files, k, step, root, scratch):
    geo.set_config(scratch, table_of(case, k))
    dem, lc = files[step[0]]
    pipeline.process(root, dem, lc, [info_of(case, step, 'tile')])
    return digest(pipeline.read(root, 'tile'))


def history(case, files, root, scratch):
    geo.set_config(scratch, case['table'])
    tiles.make_folders(root)
    strangers = {'notes.txt': 'n', 'tile.img': 'x', 'other_dem.img': 'y',
                 'tile1.img.txt': 'q', 'terrain/other_mz_n.nc': 'z',
                 'shielding/readme': 'r', 'M3/tile.tif': 't',
                 'shielding/e1.0s1.0.img': 's',
                 'terrain/e1.0s1.0_dem.img': 's'}
    # of other tiles, which other processes may be working on
    fmt = case.get('name', 'tile%d')
    for other in [fmt % 9, fmt % 10, fmt % 9 + '0', 'x' + fmt % 0]:
        for name in ('%s.img', '%s_dem.img', '%s_dem.img.aux.xml',
                     'shielding/%s_ms.img', 'M3/%s.tif',
                     'shielding/%s_ms_n.nc', 'topographic/%s_mt_n.nc'):
            strangers[name % other] = 'o'
    for name, text in strangers.items():
        with open(os.path.join(root, name), 'w') as f:
            f.write(text)
    steps = list(enumerate(case['steps']))
    if case['again']:
        steps.append(steps[0])
    jobs = {}
    results = []
    with env.Guard(root) as guard:
        for k, step in steps:
            name = fmt % k
            before = pipeline.listing(root)
            if case.get('faults') and case['faults'][k]:
                try_in_vain(case, files, k, step, root, scratch)
            geo.write_table(scratch.path('table.csv'), table_of(case, k))
            dem, lc = files[step[0]]
            job = jobs.get(step[0]) if case['one_job'] else None
            jobs[step[0]] = pipeline.process(
                root, dem, lc, [info_of(case, step, name)], job)
            after = pipeline.listing(root)
            own = set(pipeline.names_of(name))
            changed = sorted(p for p in set(before) | set(after)
                             if before.get(p) != after.get(p))
            strange = [p for p in changed if p not in own]
            require(not strange, 'processing %s (step %d) changes %s', name,
                    k, strange)
            for folder, kind in pipeline.KINDS:
                n = sum(q in after for q in own
                        if q.startswith(folder + os.sep))
                require(n in (0, 8), '%d %s outputs of %s', n, kind, name)
            results.append(digest(pipeline.read(root, name)))
    require(not guard.escaped, 'deletes %s', guard.escaped)
    return [[k for k, _ in steps], results]


class Place(object):
    """What set_config needs to know"""

    def __init__(self, scratch):
        self.scratch = scratch

    def path(self, *names):
        return os.path.join(self.scratch, *names)


def check(case, ctx):
    files = build(case, ctx)
    order, results = isolated(history, case, files, ctx.path('out'),
                              Place(ctx.scratch))
    own = {}
    for k in sorted(set(order)):
        own[k] = isolated(alone, case, files, k, case['steps'][k],
                          ctx.path('own%d' % k), Place(ctx.scratch))
    lively = set()
    for number, (k, got) in enumerate(zip(order, results)):
        for name, want in own[k].items():
            if got[name] == want:
                if want is not None:
                    v = values(want)
                    if (np.abs(np.nan_to_num(v, nan=1) - 1) > 1e-3).any():
                        lively.add(json.dumps(case['steps'][k]))
                continue
            if got[name] is None or want is None:
                fail('%s of tile %d is %s after %s, and %s alone', name, k,
                     'there' if got[name] else 'missing',
                     order[:number], 'there' if want else 'missing')
            a, b = values(got[name]), values(want)
            require(a.shape == b.shape, '%s of tile %d has another shape',
                    name, k)
            ok = (a == b) | (np.isnan(a) & np.isnan(b))
            fail('%s of tile %d differs by up to %s in %d of %d cells if '
                 'tiles %s are processed before it', name, k,
                 float(np.nanmax(np.abs(a - b))) if not ok.all() else
                 'its place', (~ok).sum(), ok.size, order[:number])
    ctx.label('%d tiles' % len(order), 'tile again' if case['again'] else '',
              'two sources' if len({s[0] for s in case['steps']}) > 1 else '',
              'one job' if case['one_job'] else '',
              'table edited' if len(set(case.get('tables') or [])) > 1 else '',
              'failed before' if any(case.get('faults') or []) else '')
    ctx.nontrivial(len(lively) > 1)
