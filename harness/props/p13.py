"""M3 is the product of the three multipliers, M3_max its maximum."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import conv, gen, geo
from harness.core import require
from utilities.convert import Converter, create_sub_dirs_for_convert

ID = 'P13'
QUICK = 2200
THOROUGH = 20000
RULE = ('A case is one to three tiles, each with 24 netCDF files of its own '
        'values, some cells missing (NaN or -9999) and some files missing. '
        'The rasters are compared with the product and its maximum computed '
        'from the values. Non-trivial: a tile in which the directions differ.')
ASSUMPTIONS = ['in a cell that is missing in some of the directions only, the '
               'maximum may be that of the others, or be missing if the input '
               'is NaN']


@st.composite
def strategy(draw, tier):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    lat = draw(gen.rounded(-60, 60, 3))
    lon = draw(gen.rounded(-179, 170, 3))
    out = []
    for i in range(n):
        small = draw(st.sampled_from([2, 2, 2, 2, 1]))
        out.append({
            'rows': draw(gen.number(small, 14, 90)),
            'cols': draw(gen.number(small, 14, 90)),
            'x0': lon + i, 'y0': lat,
            'pw': draw(st.sampled_from([0.1, 0.00027777777, 0.0025])),
            'ph': draw(st.sampled_from([0.1, 0.00027777777, 0.0025])),
            'values': draw(conv.tile_values())})
    return {'tiles': out, 'again': draw(st.booleans()), 'whole': draw(st.booleans()),
            'name': draw(st.sampled_from(['e%.4fs%.4f', 'tile-%g-%g']))}


def check(case, ctx):
    root = ctx.path('out')
    names, values = [], {}
    create_sub_dirs_for_convert(root)
    for t in case['tiles']:
        name = case['name'] % (t['x0'], -t['y0'])
        names.append(name)
        v = values[name] = conv.build(t['values'], t['rows'], t['cols'])
        conv.write(root, name, t['values'], v, t['x0'], t['y0'], t['pw'],
                   t['ph'])
        if case['again']:
            for folder in ('M3', 'M3_max'):
                conv.earlier(root, folder, name, t['rows'], t['cols'],
                             t['x0'], t['y0'], t['pw'], t['ph'],
                             case.get('whole'))
    before = snapshot(root)
    create_sub_dirs_for_convert(root)
    files, max_files = Converter(names, root).run()
    after = snapshot(root)
    require(before == after, 'the conversion changes its input: %s',
            sorted(set(before.items()) ^ set(after.items()))[:3])
    for folder, got in (('M3', files), ('M3_max', max_files)):
        want = [os.path.join(root, folder, n + '.tif') for n in names]
        require(list(map(os.path.normpath, got)) == want,
                'returned %s for %s', got, want)
    for t, name in zip(case['tiles'], names):
        check_tile(t, name, values[name], root, ctx)


def snapshot(root):
    out = {}
    for folder, _, files in os.walk(root):
        if os.path.basename(folder) in ('M3', 'M3_max'):
            continue
        for f in files:
            with open(os.path.join(folder, f), 'rb') as g:
                out[os.path.join(folder, f)] = hash(g.read())
    return out


def check_tile(t, name, values, root, ctx):
    product, maxima, gone, nan = conv.expected(t['values'], values)
    located = min(t['rows'], t['cols']) > 1
    for folder in ('M3', 'M3_max'):
        got, gt, names, nodata, projection = conv.read_tif(
            os.path.join(root, folder, name + '.tif'))
        count = 8 if folder == 'M3' else 1
        require(got.shape == (count, t['rows'], t['cols']),
                '%s has shape %s for a tile of %d x %d', folder, got.shape,
                t['rows'], t['cols'])
        require(all(x is not None for x in nodata) and
                set(nodata) == {-9999.0}, '%s declares %s missing', folder,
                nodata)
        require(geo.osr.SpatialReference(projection).IsSame(
            geo.osr.SpatialReference(geo.WGS84)) == 1,
                'reference system of %s: %s', folder, projection[:60])
        if located:
            want = (t['x0'], t['pw'], 0, t['y0'], 0, -t['ph'])
            tol = 1e-3 * min(t['pw'], t['ph'])
            require(np.abs(np.array(gt) - want).max() < tol and
                    abs(gt[1] - t['pw']) < 1e-6 * t['pw'] + 1e-11 and
                    abs(gt[5] + t['ph']) < 1e-6 * t['ph'] + 1e-11,
                    '%s lies at %s instead of %s', folder, gt, want)
        got = conv.missing(got)
        if folder == 'M3':
            require(names == conv.ORDER, 'bands are named %s', names)
            ok = geo.close(got, product, 2e-6)
            require_cells(ok, got, product, located, 'M3')
        else:
            got = got[0]
            ok = geo.close(got, maxima, 2e-6)
            ok |= gone & nan & np.isnan(got)
            require_cells(ok, got, maxima, located, 'M3_max')
    spread = np.where(np.isnan(product), 0, product)
    ctx.label('missing cells' if gone.any() else '',
              'missing in all directions' if np.isnan(maxima).any() else '',
              'missing files' if t['values']['files'] else '',
              'one cell wide or high' if not located else '')
    ctx.nontrivial(located and (spread.max(axis=0) >
                                spread.min(axis=0)).any())


def require_cells(ok, got, want, located, what):
    if not located:
        # a known finding: the rows may come out in reverse
        up = np.sort(np.nan_to_num(got, nan=-1), axis=-2)
        good = geo.close(up, np.sort(np.nan_to_num(want, nan=-1), axis=-2),
                         2e-6)
        require(good.all() or np.isnan(got).any(),
                '%s of a tile one cell wide or high', what)
        return
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        where = ('%s ' % conv.ORDER[i[0]] if len(i) == 3 else '') + str(
            [int(k) for k in i[-2:]])
        require(False, '%s: %d of %d cells differ, first %s: got %r, '
                'expected %r', what, int((~ok).sum()), ok.size, where,
                float(got[i]), float(want[i]))
