"""Shielding is bounded, upwind-only and never deepened by slope."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo, ref, tiles
from harness.core import require
from shielding import shield_mult
from shielding.shield_mult import blur_image, combine, shield

ID = 'P06'
QUICK = 3000
THOROUGH = 30000
RULE = ('A case is an array of initial shielding factors with slopes, aspects '
        'and a zone size, a direction, and cells to shield further or slopes '
        'to steepen; or a land cover and a DEM tile run whole through '
        'shield() and again with more shielding, with a flat DEM, and with no '
        'shielding. Non-trivial: some factor differs from 1 and some slope '
        'is corrected.')


@st.composite
def strategy(draw, tier):
    whole = draw(st.sampled_from([False] * 6 + [True]))
    if whole:
        p = draw(tiles.place(lo=8, hi=160, max_size=24, min_size=2))
        table = draw(gen.table_spec(min_size=2, max_size=5))
        return {'whole': True, 'place': p, 'table': table,
                'classes': draw(gen.class_spec(p['rows'], p['cols'],
                                               len(table))),
                'dem': draw(gen.dem_spec(p['rows'], p['cols'],
                                         kinds=['hills', 'smooth', 'noise',
                                                'plane'])),
                'more': draw(st.integers(0, len(table) - 1))}
    rows, cols = draw(gen.shape(24))
    n = rows * cols
    return {'whole': False, 'rows': rows, 'cols': cols,
            'dir': draw(st.sampled_from(geo.DIRECTIONS)),
            'size': draw(st.one_of(st.integers(1, 5), st.integers(1, 14))),
            'factors': draw(gen.class_spec(rows, cols, 7)),
            'slopes': draw(gen.byte_grid(n)),
            'aspects': draw(gen.byte_grid(n)),
            'cells': draw(st.lists(st.tuples(st.integers(0, rows - 1),
                                             st.integers(0, cols - 1)),
                                   min_size=1, max_size=4, unique=True)),
            'by': draw(st.integers(1, 30))}


FACTORS = np.array([1.0, 1.0, 0.85, 0.88, 0.9, 0.95, 0.6])


def kernel(direction, size):
    return np.asarray(getattr(shield_mult, 'kern_' + direction)(size))


def zone_of(direction, size):
    """
    Offsets (row, column) of the cells averaged, seen from the effect of
    a single cell, and the weight of each.
    """
    n = 2 * size + 3
    probe = np.ones((2 * n + 1, 2 * n + 1))
    probe[n, n] = 0.0
    effect = 1.0 - blur_image(probe, kernel(direction, size))
    # an output cell at (n - dr, n - dc) has the probe at offset (dr, dc)
    cells = [(n - int(r), n - int(c))
             for r, c in np.argwhere(np.abs(effect) > 1e-6)]
    return {c: float(effect[n - c[0], n - c[1]]) for c in cells}


def check_zone(direction, size):
    zone = zone_of(direction, size)
    weights = np.array(list(zone.values()))
    require(len(zone) > 0 and (weights > 0).all(),
            'zone %s of size %s has weights %s', direction, size,
            weights.tolist())
    require(abs(weights.sum() - 1) < 1e-5 and
            weights.max() - weights.min() < 1e-6,
            'zone %s of size %s has weights from %s to %s that add up to %s',
            direction, size, weights.min(), weights.max(), weights.sum())
    dr, dc = geo.UPWIND[direction]
    for r, c in zone:
        require(r * dr + c * dc > 0 and
                (len(direction) == 1 or (r * dr > 0 and c * dc > 0)),
                'zone %s of size %s has cell %s, which is not upwind',
                direction, size, (r, c))
        require(max(abs(r), abs(c)) <= size, 'zone %s of size %s reaches %s',
                direction, size, (r, c))
    require(set(zone) == set(ref.shielding_zone(direction, size)),
            'zone %s of size %s is %s', direction, size, sorted(zone))


def slopes_of(case):
    b = gen.unbytes(case['slopes'], (case['rows'], case['cols']))
    # 0 to 25 degrees, with some at the ends of the ramp and unknown ones
    s = b / 10.2
    s[b == 7] = 3.27
    s[b == 8] = 12.30
    s[b == 9] = np.nan
    return s


def final(factors, slopes, aspects, direction, size):
    mean = blur_image(factors.copy(), kernel(direction, size))
    return np.array(combine(mean, slopes, aspects, direction))


def no_lower(a, b, what):
    """b is nowhere lower than a"""
    bad = b < a - 1e-6
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        require(False, '%s lowers the multiplier from %s to %s at %s', what,
                a[i], b[i], list(map(int, i)))


def check_array(case, ctx):
    d, size = case['dir'], case['size']
    check_zone(d, size)
    factors = FACTORS[gen.build_classes(case['factors'])].astype(np.float32)
    aspects = gen.unbytes(case['aspects'], factors.shape).astype(int) % 9 + 1
    slopes = slopes_of(case)
    out = final(factors, slopes, aspects, d, size)
    # the multiplier does not increase with the factor on both sides of 0.9,
    # but it stays between these
    require(np.nanmin(out) >= 0.9 * factors.min() - 1e-5 and
            np.nanmax(out) <= 1 + 1e-6,
            'factors from %s to %s give multipliers from %s to %s',
            factors.min(), factors.max(), np.nanmin(out), np.nanmax(out))
    none = final(np.ones_like(factors), slopes, aspects, d, size)
    require(np.abs(none - 1).max() < 1e-6,
            'multiplier %s where nothing shields', none.min())
    less = factors.copy()
    for r, c in case['cells']:
        less[r, c] -= 0.01 * case['by']
    no_lower(final(less, slopes, aspects, d, size), out, 'less shielding')
    flat = final(factors, np.zeros_like(slopes), aspects, d, size)
    no_lower(flat, out, 'slope')
    steeper = slopes.copy()
    for r, c in case['cells']:
        steeper[r, c] = slopes[r, c] + 0.3 * case['by']
    no_lower(out, final(factors, steeper, aspects, d, size), 'a steeper slope')
    other = aspects != ref.ASPECT[d]
    require((np.abs(out - flat)[other] < 1e-6).all(),
            'a slope that does not face %s changes the multiplier', d)
    ctx.label('size %s' % (size if size < 6 else '6+'), 'direction ' + d)
    ctx.nontrivial((factors < 1).any() and (out != flat).any())


def run_tile(ctx, name, classes, dem, p, table):
    geo.set_config(ctx, table)
    out = ctx.path(name)
    tiles.make_folders(out)
    lc = geo.write_raster(os.path.join(out, 'lc.img'), classes, p['x0'],
                          p['y0'], p['pw'], p['ph'], 'int32')
    df = geo.write_raster(os.path.join(out, 'lc_dem.img'), dem, p['x0'],
                          p['y0'], p['pw'], p['ph'], 'float32')
    shield(lc, df, geo.extent_of(p['x0'], p['y0'], p['pw'], p['ph'], 0, 0,
                                 p['cols'], p['rows']))
    return {d: geo.read_nc(os.path.join(out, 'shielding', 'lc_ms_%s.nc' % d),
                           'Ms')[0] for d in geo.DIRECTIONS}


def check_tile(case, ctx):
    p = case['place']
    table = case['table']
    classes = np.array([r[0] for r in table])[
        gen.build_classes(case['classes'])]
    dem = gen.build_dem(case['dem'])
    smallest = min(r[2] for r in table if (classes == r[0]).any()) / 100.0
    base = run_tile(ctx, 'a', classes, dem, p, table)
    flat = run_tile(ctx, 'b', classes, np.full(dem.shape, 7.0), p, table)
    more = [list(r) for r in table]
    more[case['more']][2] -= 20
    deeper = run_tile(ctx, 'c', classes, dem, p, more)
    none = run_tile(ctx, 'd', classes, dem, p, [r[:2] + [100] for r in table])
    sloped = False
    for d in geo.DIRECTIONS:
        require(np.nanmin(base[d]) >= 0.9 * smallest - 1e-5 and
                np.nanmax(base[d]) <= 1 + 1e-6 and
                not np.isnan(base[d]).any(),
                '%s: multipliers from %s to %s for factors from %s', d,
                np.nanmin(base[d]), np.nanmax(base[d]), smallest)
        no_lower(flat[d], base[d], d + ': slope')
        no_lower(deeper[d], base[d], d + ': less shielding')
        require(np.abs(none[d] - 1).max() < 1e-6,
                '%s: multiplier %s where nothing shields', d, none[d].min())
        sloped = sloped or (base[d] != flat[d]).any()
    ctx.label('whole tile')
    ctx.nontrivial(sloped and smallest < 1)


def check(case, ctx):
    if case['whole']:
        check_tile(case, ctx)
    else:
        check_array(case, ctx)
