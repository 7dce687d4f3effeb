"""Terrain multiplier looks only upwind, the same in every direction."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, ref, tiles
from harness.core import require
from terrain.terrain_mult import convo, terrain

ID = 'P04'
QUICK = 3600
THOROUGH = 30000
RULE = ('A case is an array of initial multipliers, a direction, an averaging '
        'and a lag width (also larger than the array), a set of cells to '
        'change, and a symmetry of the square; or a land cover tile that is '
        'run whole through terrain() with its mirror images and with some '
        'cells changed. Non-trivial: the output is not constant and a '
        'changed cell has an effect somewhere.')

# where each direction goes: of the array and of its images
MIRROR_EW = {'n': 'n', 's': 's', 'e': 'w', 'w': 'e',
             'ne': 'nw', 'nw': 'ne', 'se': 'sw', 'sw': 'se'}
MIRROR_NS = {'n': 's', 's': 'n', 'e': 'e', 'w': 'w',
             'ne': 'se', 'se': 'ne', 'nw': 'sw', 'sw': 'nw'}
TRANSPOSE = {'n': 'w', 'w': 'n', 's': 'e', 'e': 's',
             'ne': 'sw', 'sw': 'ne', 'nw': 'nw', 'se': 'se'}
IMAGES = {'ew': (np.fliplr, MIRROR_EW), 'ns': (np.flipud, MIRROR_NS),
          'transpose': (np.transpose, TRANSPOSE)}


@st.composite
def strategy(draw, tier):
    whole = draw(st.sampled_from([False] * 7 + [True]))
    size = 24 if tier == 'quick' else 36
    if whole:
        p = draw(tiles.place(lo=20, hi=300, max_size=26, min_size=3))
        table = draw(gen.table_spec(min_size=2, max_size=5))
        n = len(table)
        case = {'whole': True, 'place': p, 'table': table,
                'classes': draw(gen.class_spec(p['rows'], p['cols'], n))}
        rows, cols = p['rows'], p['cols']
    else:
        rows, cols = draw(gen.shape(size, 1, 300, 60))
        case = {'whole': False,
                'values': draw(gen.class_spec(rows, cols, 13)),
                'avg': draw(st.one_of(st.integers(0, 5),
                                      st.integers(0, size + 3))),
                'lag': draw(st.one_of(st.integers(0, 3),
                                      st.integers(0, size + 3))),
                'dir': draw(st.sampled_from(geo.DIRECTIONS))}
    case['image'] = draw(st.sampled_from(
        ['ew', 'ns'] if whole else sorted(IMAGES)))
    case['cells'] = draw(st.lists(
        st.tuples(st.integers(0, rows - 1), st.integers(0, cols - 1)),
        min_size=1, max_size=4, unique=True))
    case['by'] = draw(st.integers(1, 12))
    return case


def reach(shape, cells, direction, avg, lag):
    """Cells whose multiplier may depend on one of the cells."""
    out = np.zeros(shape, bool)
    dr, dc = geo.UPWIND[direction]
    for r, c in cells:
        out[r, c] = True
        for k in range(lag + 1, lag + avg + 1):
            i, j = r - k * dr, c - k * dc
            if 0 <= i < shape[0] and 0 <= j < shape[1]:
                out[i, j] = True
    return out


def compare(base, changed, may, rises, what):
    """The multiplier changes only where it may, and in one sense."""
    diff = changed - base
    # sums may be taken in another order
    bad = (np.abs(diff) > 5e-6) & ~may
    require(not bad.any(), '%s: a change of the land cover changes the '
            'multiplier of %s, which is not downwind', what,
            np.argwhere(bad)[:1].tolist())
    wrong = diff < -5e-6 if rises else diff > 5e-6
    require(not wrong.any(), '%s: %s land %s the multiplier at %s', what,
            'smoother' if rises else 'rougher',
            'lowers' if rises else 'raises', np.argwhere(wrong)[:1].tolist())


def check_array(case, ctx):
    values = 0.75 + 0.02 * gen.build_classes(case['values'])
    values = values.astype(np.float32)
    avg, lag, d = case['avg'], case['lag'], case['dir']
    before = values.copy()
    out = np.array(convo(d, values, avg, lag))
    require((values == before).all(), 'convo changes its input')
    require(out.shape == values.shape, 'shape %s', out.shape)
    require(out.min() >= values.min() - 1e-5 and
            out.max() <= values.max() + 1e-5,
            'values from %s to %s become %s to %s', values.min(),
            values.max(), out.min(), out.max())
    image, directions = IMAGES[case['image']]
    other = np.array(convo(directions[d], np.ascontiguousarray(image(values)),
                           avg, lag))
    ok = np.abs(other - image(out)) < 1e-5
    require(ok.all(), 'direction %s of the %s image differs at %s',
            directions[d], case['image'], np.argwhere(~ok)[:1].tolist())
    lower = values.copy()
    for r, c in case['cells']:
        lower[r, c] -= 0.01 * case['by']
    changed = np.array(convo(d, lower, avg, lag))
    compare(out, changed, reach(values.shape, case['cells'], d, avg, lag),
            False, d)
    ctx.label('lag beyond array' if lag >= max(values.shape) else
              'inside array', 'length 0' if avg == 0 else '',
              case['image'], 'direction ' + d)
    ctx.nontrivial((changed != out).any() and out.min() != out.max())


def run_tile(ctx, name, classes, p):
    out = ctx.path(name)
    tiles.make_folders(out)
    path = geo.write_raster(os.path.join(out, 'lc.img'), classes, p['x0'],
                            p['y0'], p['pw'], p['ph'], 'int32')
    terrain(path, geo.extent_of(p['x0'], p['y0'], p['pw'], p['ph'], 0, 0,
                                p['cols'], p['rows']))
    return {d: geo.read_nc(os.path.join(out, 'terrain', 'lc_mz_%s.nc' % d),
                           'Mz')[0] for d in geo.DIRECTIONS}


def check_tile(case, ctx):
    p = case['place']
    table = sorted(case['table'], key=lambda r: r[1])    # smooth to rough
    geo.set_config(ctx, case['table'])
    index = gen.build_classes(case['classes'])
    codes = np.array([r[0] for r in table])
    base = run_tile(ctx, 'a', codes[index], p)
    image, directions = IMAGES[case['image']]
    other = run_tile(ctx, 'b', image(codes[index]), p)
    for d in geo.DIRECTIONS:
        ok = np.abs(other[directions[d]] - image(base[d])) < 1e-5
        require(ok.all(), 'direction %s of the %s image of a tile differs at '
                '%s', directions[d], case['image'],
                np.argwhere(~ok)[:1].tolist())
    rougher = index.copy()
    for r, c in case['cells']:
        rougher[r, c] = max(rougher[r, c], len(table) - 1)
    changed = run_tile(ctx, 'c', codes[rougher], p)
    g = geo.grid_width(p['rows'], p['cols'], p['y0'], p['pw'], p['ph'])
    init = np.array([ref.mz_of_roughness(r[1]) for r in table])
    present = init[np.unique(index)]
    effect = False
    for d in geo.DIRECTIONS:
        # one cell more than the distances of the standard
        step = g * (1.414 if len(d) == 2 else 1)
        lag = max(0, int(200 / step) - 1)
        avg = int(700 / step) + 2 - lag
        compare(base[d], changed[d],
                reach(base[d].shape, case['cells'], d, avg, lag), False, d)
        require(base[d].min() >= present.min() - 1e-5 and
                base[d].max() <= present.max() + 1e-5,
                '%s: initial multipliers %s to %s become %s to %s', d,
                present.min(), present.max(), base[d].min(), base[d].max())
        effect = effect or (changed[d] != base[d]).any()
    ctx.label('whole tile')
    ctx.nontrivial(effect)


def check(case, ctx):
    if case['whole']:
        check_tile(case, ctx)
    else:
        check_array(case, ctx)
