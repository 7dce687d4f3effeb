"""Land cover classes are interpreted by the terrain table alone."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, tiles
from harness.core import require
from shielding.shield_mult import get_shielding_table, \
    terrain_class2ms_orig
from terrain.terrain_mult import get_terrain_table, terrain_class2mz_orig

ID = 'P22'
QUICK = 9000
THOROUGH = 50000
RULE = ('A case is a terrain table (classes in any order, columns in any '
        'order with others between them, comments, quoted text) and a '
        'land cover raster of some data type with listed and unlisted '
        'classes. The initial multipliers and factors are compared with the '
        'formula for each cell. Non-trivial: listed and unlisted classes '
        'are both present.')
ASSUMPTIONS = ['classes are whole numbers, and not listed twice']


@st.composite
def strategy(draw, tier):
    dtype = draw(st.sampled_from(['uint8', 'int16', 'int32', 'float32',
                                  'uint16', 'float64']))
    top = {'uint8': 255, 'int16': 32767, 'uint16': 65535,
           'float32': 2 ** 24}.get(dtype, 2 ** 31 - 1)
    low = 0 if dtype.startswith('u') else -32768
    few = st.integers(1, 20)
    cats = draw(st.lists(st.one_of(few, few, st.integers(0, top),
                                   st.sampled_from([99, 157, 255] + (
                                       [-99, -1, -9999] if low else []))),
                         min_size=1, max_size=draw(gen.number(1, 12, 60)),
                         unique=True))
    rows, cols = draw(st.one_of(
        st.tuples(*[st.sampled_from([6, 3, 4, 5, 7, 8, 9, 2, 1])] * 2),
        gen.shape(9, 1, 900, 300)))
    # among them classes that agree with a listed one in some of their bits,
    # or in some of their digits
    others = [c + k for c in cats for k in (
        256, 1000, 32768, 65536, 3 * 65536, 2 ** 24, -256, -1000, -65536, 1,
        -1)] + [10 * c for c in cats] + [c // 10 for c in cats]
    others += [-c for c in cats] + [-99, -99, -9999, -1, -32768]
    others = sorted(set(c for c in others if low <= c <= top) - set(cats))
    other = draw(st.lists(st.one_of(st.integers(0, top), st.sampled_from(
        others or [top])).filter(lambda c: c not in cats), min_size=draw(st.sampled_from([1, 1, 1, 0])),
        max_size=4))
    return {'dtype': dtype, 'cats': cats, 'other': other,
            'z0': [draw(st.one_of(st.sampled_from(gen.TABLE_ROUGHNESS),
                                  gen.rounded(0.0005, 5, 4),
                                  st.just(1), st.just(2))) for _ in cats],
            'ms': [draw(st.one_of(st.sampled_from([100, 85, 88, 90]),
                                  gen.rounded(50, 100, 1),
                                  st.integers(40, 100))) for _ in cats],
            'columns': draw(st.permutations(
                ['CATEGORY', 'DESCRIPTION', 'ROUGHNESS_LENGTH_m', 'SHIELDING',
                 'NOTE'])),
            'drop': draw(st.booleans()),
            'comment': draw(st.lists(st.integers(0, 12), max_size=3)),
            'remark': draw(st.sampled_from(['', '', ' # remark', '# 1'])),
            'quotes': draw(st.booleans()),
            'edited': draw(st.booleans()),
            'declared': draw(st.one_of(
                st.none(), st.none(), st.sampled_from(cats + other))),
            'classes': draw(gen.class_spec(rows, cols,
                                           len(cats) + len(other))),
            'ext': draw(st.sampled_from(['.img', '.tif']))}


def table_text(case):
    columns = [c for c in case['columns']
               if not (case['drop'] and c in ('DESCRIPTION', 'NOTE'))]
    lines = [','.join(columns)]
    for i, c in enumerate(case['cats']):
        values = {'CATEGORY': str(c),
                  'DESCRIPTION': '"Forest, %d"' % i if case['quotes']
                  else 'Forest %d' % i,
                  'ROUGHNESS_LENGTH_m': repr(case['z0'][i]),
                  'SHIELDING': repr(case['ms'][i]),
                  'NOTE': str((i * 37) % 11)}
        lines.append(','.join(values[k] for k in columns))
    if case.get('remark'):
        # at the end of a line, after its values
        lines[1 + len(case['cats']) // 2] += case['remark']
    for at in case['comment']:
        lines.insert(at % (len(lines) + 1), '# a comment, 1, 2, 3')
    return '\n'.join(lines) + '\n'


def check(case, ctx):
    path = ctx.path('table.csv')
    from utilities.config import configparser as config
    config.set_config_file(geo.write_config(
        ctx.path('case.cfg'), ctx.scratch, terrain_table=path))
    check_table(case, ctx, path, 'tile')
    if case.get('edited'):
        # the same file, with other values and classes
        n = len(case['cats'])
        check_table(dict(case, cats=case['cats'][1:] + case['other'][:1],
                         other=case['cats'][:1] + case['other'][1:],
                         z0=case['z0'][::-1][:n - 1] + [0.03],
                         ms=case['ms'][::-1][:n - 1] + [77])
                    if case['other'] else
                    dict(case, z0=case['z0'][1:] + [0.03],
                         ms=case['ms'][1:] + [77]), ctx, path, 'tile2')


def check_table(case, ctx, path, name):
    with open(path, 'w') as f:
        f.write(table_text(case))
    codes = np.array(case['cats'] + case['other'])
    classes = codes[gen.build_classes(case['classes'])].astype(case['dtype'])
    mz = dict(zip(case['cats'], case['z0']))
    ms = dict(zip(case['cats'], case['ms']))

    given = classes.copy()
    out = np.asarray(terrain_class2mz_orig(classes, get_terrain_table()))
    require((classes == given).all(), 'the land cover array is changed')
    require(out.shape == classes.shape, 'shape %s', out.shape)
    for i in np.ndindex(*classes.shape):
        c = int(classes[i])
        want = 0.0
        if c in mz:
            want = 1.0762 - 0.2827 * math.log(
                3.734 + 0.4554 * math.log(mz[c]))
        require(abs(out[i] - want) < 2e-6, 'class %d of roughness %s has '
                'initial multiplier %r, not %r', c, mz.get(c), out[i], want)

    declared = case.get('declared')
    if (classes == (-77777 if declared is None else declared)).all():
        # nothing but missing cells, which is not a tile to process
        declared = None
    folder = ctx.path(name)
    tiles.make_folders(folder)
    tile = geo.write_raster(os.path.join(folder, 'lc' + case['ext']), classes,
                            145.0, -17.0, 0.001, 0.002, case['dtype'],
                            nodata=declared)
    with open(tile, 'rb') as f:
        before = f.read()
    got, gt, _ = geo.read_raster(terrain_class2ms_orig(tile))
    with open(tile, 'rb') as f:
        require(f.read() == before, 'the land cover file is changed')
    require(got.shape == classes.shape and np.allclose(
        gt, (145.0, 0.001, 0, -17.0, 0, -0.002)), 'initial shielding raster '
        'of shape %s at %s', got.shape, gt)
    for i in np.ndindex(*classes.shape):
        c = int(classes[i])
        want = ms.get(c, 100) / 100.0
        if c == declared:
            require(np.isnan(got[i]) or got[i] == -99, 'class %d is declared '
                    'missing and has initial factor %r', c, got[i])
            continue
        require(abs(got[i] - want) < 2e-6, 'class %d with shielding %s has '
                'initial factor %r, not %r', c, ms.get(c), got[i], want)
    frame = get_shielding_table()
    require(len(frame) == len(case['cats']), 'table of %d rows read for %d',
            len(frame), len(case['cats']))
    present = set(int(v) for v in np.unique(classes))
    ctx.label('missing cells' if declared in present else '')
    ctx.label(case['dtype'], 'comments' if case['comment'] else '',
              'class 0 listed' if 0 in mz and 0 in present else '')
    ctx.nontrivial(bool(present & set(mz)) and bool(present - set(mz)))
