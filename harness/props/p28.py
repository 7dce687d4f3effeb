"""Multipliers do not depend on where the tiles are cut."""
import math

import numpy as np
from hypothesis import strategies as st

import all_multipliers
from harness import gen, geo, pipeline, ref
from harness.core import Reject, require

ID = 'P28'
QUICK = 400
THOROUGH = 5000
RULE = ('A case is a DEM with hills around one point or line, a land cover '
        'raster, and the seams between 2 to 6 tiles near the hills, with a '
        'buffer that holds the hills and the upwind distances; tiles are '
        'made for the seams, or by the tile grid of the program. Each cell '
        'of the tiles is compared with the one of a single large tile, and '
        'the tiles must join. Non-trivial: a terrain, shielding or '
        'topographic multiplier varies within a buffer width of the seam.')
ASSUMPTIONS = ['cells are not compared where a threshold falls between the '
               'mean cell sizes of the tile and of the large tile (which '
               'differ by some 1e-5 with latitude), or where the aspect is '
               'within 0.05 degrees of the edge between octants',
               'outside of Tasmania, whose correction is by tile']


@st.composite
def strategy(draw, tier):
    grid = draw(st.sampled_from([False, False, True]))
    lat = draw(st.one_of(gen.rounded(-38, -9, 2), gen.rounded(-60, 70, 2)))
    hills = draw(st.integers(1, 3))
    if grid:
        # cells so large that a tile of one degree has 7 to 20 of them
        pw = draw(st.sampled_from([0.05, 0.0625, 0.1, 0.125, 0.08]))
        ph = draw(st.sampled_from([0.05, 0.0625, 0.1, 0.125, 0.08]))
        buffer = [3 * hills + 2] * 2
        step = [int(math.ceil(1 / ph)), int(math.ceil(1 / pw))]
        shape = [draw(st.integers(max(s // 2, 2), int(2.4 * s)))
                 for s in step]
        seams = [list(range(s, n, s)) for s, n in zip(step, shape)]
        amp = draw(st.sampled_from([2000, 5000, 9000]))
    else:
        metres = draw(st.one_of(st.sampled_from([90., 100., 250.]),
                                gen.rounded(65, 400, 1)))
        pw = float('%.6g' % geo.degrees_for(metres, lat))
        ph = float('%.6g' % (pw * draw(st.sampled_from([1, 1, 0.8, 1.25]))))
        need = int(math.ceil(700.0 / (metres * 0.7))) + 2
        shape = [draw(st.integers(2, 26)), draw(st.integers(2, 26))]
        reach = pipeline.steady(shape[0], shape[1], lat, pw, ph)
        if reach is not None and draw(st.booleans()):
            # no cell more than the upwind distances
            need = max([sum(w) for w in reach[0]] + [reach[1], 1])
        buffer = [max(need, 3 * hills + 2)] * 2
        seams = [sorted(draw(st.sets(
            st.one_of(st.integers(1, n - 1), st.sampled_from([1, n - 1])),
            min_size=lo, max_size=1)))
                 for n, lo in zip(shape, draw(st.sampled_from(
                     [[1, 0], [0, 1], [0, 0]])))]
        amp = draw(st.sampled_from([30, 100, 300, 800]))
    table = draw(gen.table_spec())
    unlisted = draw(st.sampled_from([0, 0, 1]))
    # the hills, around one of the seams of each direction
    middle = [draw(st.sampled_from(s)) if s else
              draw(st.integers(0, n)) for s, n in zip(seams, shape)]
    size = [min(2 * hills, n) if len(s) > 0 else n
            for s, n in zip(seams, shape)]
    return {
        'grid': grid, 'shape': shape, 'seams': seams, 'buffer': buffer,
        'pw': pw, 'ph': ph, 'x0': draw(gen.rounded(-170, 140, 2)), 'y0': lat,
        'hills': hills, 'amp': amp, 'middle': middle, 'size': size,
        'base': draw(st.sampled_from([1, 12, 480, 3])),
        'kind': draw(st.sampled_from(['noise', 'cone', 'cone', 'ridge'])),
        'noise': draw(gen.byte_grid(size[0] * size[1])),
        'table': table, 'unlisted': unlisted,
        'classes': draw(gen.class_spec(shape[0], shape[1],
                                       len(table) + unlisted)),
        'fine': draw(st.sampled_from([1, 1, 2]))}


def build(case):
    rows, cols = case['shape']
    dem = np.full((rows, cols), float(case['base']))
    sr, sc = case['size']
    r0, c0 = [max(0, min(m - case['hills'], n - s)) if seams else 0
              for m, n, s, seams in zip(case['middle'], case['shape'],
                                        case['size'], case['seams'])]
    if case['kind'] == 'noise':
        z = gen.unbytes(case['noise'], (sr, sc)) / 255.0
    else:
        rr, cc = np.mgrid[0:sr, 0:sc]
        dr = np.abs(rr - (sr - 1) / 2.0) / (sr / 2.0)
        dc = np.abs(cc - (sc - 1) / 2.0) / (sc / 2.0)
        if case['kind'] == 'ridge':
            z = 1 - (dr if case['seams'][0] else dc)
        else:
            z = np.clip(1 - np.hypot(dr, dc), 0, 1)
    dem[r0:r0 + sr, c0:c0 + sc] += z * case['amp']
    return dem.astype('float32').astype(float)


def check(case, ctx):
    rows, cols = case['shape']
    x0, y0, pw, ph = case['x0'], case['y0'], case['pw'], case['ph']
    if len(case['seams'][0]) > 1 or len(case['seams'][1]) > 1:
        ctx.label('many tiles')
    dem = build(case)
    values = np.array([r[0] for r in case['table']] + [701])
    classes = values[gen.build_classes(case['classes'])]
    geo.set_config(ctx, case['table'])
    dem_path = geo.write_raster(ctx.path('dem.tif'), dem, x0, y0, pw, ph)
    k = case['fine']
    lc_path = geo.write_raster(
        ctx.path('lc.img'), np.repeat(np.repeat(classes, k, 0), k, 1), x0, y0,
        pw / k, ph / k, 'int32')

    def extent(r0, c0, r1, c1):
        return geo.extent_of(x0, y0, pw, ph, c0, r0, c1, r1)

    if case['grid']:
        length = max(case['buffer']) * max(pw, ph) * 1.0001
        tg = all_multipliers.TileGrid(length, dem_path)
        infos = all_multipliers.get_tiles(tg)
        b = [int(length / ph), int(length / pw)]
    else:
        infos = None
        b = case['buffer']
    cuts = [[0] + s + [n] for s, n in zip(case['seams'], case['shape'])]
    plan = []
    for j in range(len(cuts[1]) - 1):
        for i in range(len(cuts[0]) - 1):
            r0, r1 = cuts[0][i:i + 2]
            c0, c1 = cuts[1][j:j + 2]
            outer = [max(0, r0 - b[0]), max(0, c0 - b[1]),
                     min(rows, r1 + b[0]), min(cols, c1 + b[1])]
            plan.append(['t%d.%d' % (i, j), [r0, c0, r1, c1], outer])
    whole = ['whole', extent(0, 0, rows, cols), extent(0, 0, rows, cols)]
    if infos is None:
        infos = [[n, extent(*outer), extent(*inner)]
                 for n, inner, outer in plan]
    else:
        require(len(infos) == len(plan), '%d tiles instead of %d',
                len(infos), len(plan))
        plan = [[info[0], inner, outer] for info, (_, inner, outer)
                in zip(infos, plan)]

    steady = pipeline.steady(rows, cols, y0, pw, ph)
    if steady is None:
        raise Reject()
    for name, inner, outer in plan:
        r0, c0, r1, c1 = outer
        if pipeline.steady(r1 - r0, c1 - c0, y0 - r0 * ph, pw, ph) != steady:
            raise Reject()
        if (classes[r0:r1, c0:c1] == 701).all() or \
                not dem[r0:r1, c0:c1].any():
            # a tile without classes or elevations
            raise Reject()

    out = ctx.path('out')
    pipeline.process(out, dem_path, lc_path, infos)
    large = ctx.path('large')
    pipeline.process(large, dem_path, lc_path, [whole])
    one = pipeline.read(large, 'whole')
    require(all(v is not None for v in one.values()), 'no large tile')
    unsure = pipeline.unsure_aspect(dem, y0, pw, ph)
    bounds = {d: ref.topographic_multiplier(
        dem, d, geo.grid_width(rows, cols, y0, pw, ph))
        for d in geo.DIRECTIONS}

    count = np.zeros((rows, cols), dtype=int)
    lively = False
    for name, (r0, c0, r1, c1), (o0, p0, o1, p1) in plan:
        got = pipeline.read(out, name)
        part = dem[o0:o1, p0:p1]
        g = geo.grid_width(o1 - o0, p1 - p0, y0 - o0 * ph, pw, ph)
        count[r0:r1, c0:c1] += 1
        for (kind, d), result in got.items():
            require(result is not None, 'no %s of tile %s', kind, name)
            a, lat, lon = result
            big, big_lat, big_lon = one[kind, d]
            require(a.shape == (r1 - r0, c1 - c0), '%s of tile %s has shape '
                    '%s instead of %s', kind, name, a.shape,
                    (r1 - r0, c1 - c0))
            require(np.abs(lat - big_lat[r0:r1]).max() < 1e-6 * ph + 1e-10 and
                    np.abs(lon - big_lon[c0:c1]).max() < 1e-6 * pw + 1e-10,
                    'the cells of tile %s are at another place', name)
            want = big[r0:r1, c0:c1]
            ok = geo.close(a, want, 2e-5 if kind != 'Mt' else 1e-4)
            if kind == 'Ms':
                ok |= unsure[r0:r1, c0:c1]
            elif kind == 'Mt' and not ok.all():
                lo, hi = ref.topographic_multiplier(part, d, g)
                lo = lo[r0 - o0:r1 - o0, c0 - p0:c1 - p0]
                hi = hi[r0 - o0:r1 - o0, c0 - p0:c1 - p0]
                ok |= np.abs(lo - bounds[d][0][r0:r1, c0:c1]) > 2e-5
                ok |= np.abs(hi - bounds[d][1][r0:r1, c0:c1]) > 2e-5
                ok |= hi - lo > 2e-5
                ctx.count('undecided')
            if not ok.all():
                i = tuple(np.argwhere(~ok)[0])
                require(False, '%s %s: %d of %d cells of the tile of cells '
                        '%s differ from the large tile, first %s: %r, '
                        'instead of %r', kind, d, (~ok).sum(), ok.size,
                        [r0, c0, r1, c1], [int(i[0] + r0), int(i[1] + c0)],
                        float(a[i]), float(want[i]))
            w = want[~np.isnan(want)]
            if w.size and w.max() - w.min() > 1e-3:
                lively = True
                ctx.label(kind + ' varies')
    require((count == 1).all(), 'the plan of the check is wrong')
    ctx.label('tile grid' if case['grid'] else 'any seam',
              '%d tiles' % len(plan))
    ctx.nontrivial(lively and len(plan) > 1)


