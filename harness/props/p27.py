"""Reading, saving, dissolving, cropping and joining shapefiles."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, shapes
from harness.core import Reject, require
from utilities.shapefiles import shp_file

ID = 'P27'
QUICK = 9000
THOROUGH = 50000
RULE = ('A case is a shapefile of 1 to 8 polygons made of the cells of a grid '
        '(with holes, several parts or no geometry), and a second one to crop '
        'with or to join, or an attribute to dissolve by. Results are '
        'compared with sets of cells, where areas are counted. Non-trivial: '
        'shapes overlap, or at least two features are dissolved.')
ASSUMPTIONS = ['if several features cover the same part of a feature, or only '
               'touch it, any of them may be joined']

FIELDS = {'NAME': 'str:20', 'CODE': 'int', 'SIZE': 'float:12.3',
          'DAY': 'date', 'BIG': 'int:18'}
NAMES = ['a', 'b', 'City', 'Small Town', None]
OTHER = ['A', 'B', 'Caf\u00e9', '\u65e5\u672c', '1', 'x' * 20, 'None']
DAYS = ['2020-02-29', '1899-12-31', '2011-06-01', None]


@st.composite
def features(draw, lo=1, hi=8, empty=True):
    out = []
    for _ in range(draw(gen.number(lo, hi, 30))):
        gone = empty and draw(st.sampled_from([False] * 8 + [True]))
        out.append({'cells': None if gone else draw(shapes.cells()),
                    'name': draw(st.sampled_from(NAMES * 2 + OTHER)),
                    'day': draw(st.integers(0, 3)),
                    'big': draw(st.sampled_from(
                        [0, 1, 2 ** 31, 2 ** 53 + 1, -10 ** 16])),
                    'code': draw(st.sampled_from([1, 2, -3, 0, None]))})
    return out


@st.composite
def drawn(draw):
    """Shapes that are not made of cells"""
    def some(least):
        return draw(st.lists(st.tuples(
            shapes.outline(), st.sampled_from(NAMES[:3])), min_size=least,
            max_size=6))
    return {'op': 'outlines', 'ops': draw(st.lists(st.sampled_from(
        ['save', 'dissolve', 'crop', 'join']), min_size=1, max_size=4)),
        'features': some(1), 'others': some(1),
        'place': draw(shapes.places)}


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 5)) == 0:
        return draw(drawn())
    op = draw(st.sampled_from(['save', 'dissolve', 'dissolve', 'crop', 'join',
                               'join', 'all']))
    return {'op': op, 'features': draw(features()),
            'others': draw(features(empty=False)),
            'mask': draw(st.sampled_from(['cells', 'triangle'])),
            'place': draw(shapes.places),
            'by': draw(st.sampled_from(['NAME', 'NAME', 'CODE', 'SIZE'])),
            # attributes that were changed after reading
            'blank': draw(st.lists(st.tuples(
                st.integers(0, 7), st.sampled_from(['', None])),
                max_size=4)),
            'suffix': draw(st.sampled_from(['a', 'with space']))}


def load(path, feats, place):
    shapes.write(path, [
        (None if f['cells'] is None else shapes.geometry(f['cells'], place),
         attributes(f, i))
        for i, f in enumerate(feats)], FIELDS)
    out = shp_file()
    out.read(path)
    return out


def attributes(f, i):
    return {'NAME': f['name'], 'CODE': f['code'], 'SIZE': i + 0.5,
            'DAY': DAYS[f.get('day', 0)], 'BIG': f.get('big', 7)}


def compare(geoms, attrs, want, place, what):
    """want: list of (array of cells, attributes)"""
    require(len(geoms) == len(want) and len(attrs) == len(want),
            '%s: %d shapes and %d attributes for %d features', what,
            len(geoms), len(attrs), len(want))
    for i, (g, a, (cells, expected)) in enumerate(zip(geoms, attrs, want)):
        diff = shapes.differs(g, cells, place)
        require(diff is None, '%s: feature %d: %s', what, i, diff)
        if expected is not None:
            require(dict(a) == expected, '%s: feature %d has %s instead of '
                    '%s', what, i, dict(a), expected)


def crop_window(mask, place, how):
    """(geometry of the mask, array of the cells in its bounding box)"""
    from shapely.geometry import Polygon
    rows, cols = np.where(mask)
    r0, r1, c0, c1 = rows.min(), rows.max() + 1, cols.min(), cols.max() + 1
    x0, y0, step = place
    inside = np.zeros_like(mask)
    inside[r0:r1, c0:c1] = True
    triangle = Polygon([(x0 + c0 * step, y0 - r1 * step),
                        (x0 + c1 * step, y0 - r1 * step),
                        (x0 + c1 * step, y0 - r0 * step)])
    return triangle, inside


def apart(a, b):
    """How much of two shapes is in one of them only"""
    return a.symmetric_difference(b).area / max(a.area, b.area)


def check_outlines(case, ctx):
    """Any sequence of operations on shapes of any form"""
    from shapely.geometry import box
    place = case['place']
    fields = {'NAME': 'str:20', 'N': 'int'}

    def polygons(key):
        return [(shapes.polygon(spec, place), {'NAME': name, 'N': i})
                for i, (spec, name) in enumerate(case[key])]
    state, others = polygons('features'), polygons('others')
    if not all(g.is_valid for g, _ in state + others):
        raise Reject()
    folder = ctx.path('in')
    os.mkdir(folder)
    data, other = shp_file(), shp_file()
    for item, feats, name in ((data, state, 'f'), (other, others, 'o')):
        path = shapes.write(os.path.join(folder, name + '.shp'), feats,
                            fields)
        item.read(path)
    busy = False
    ops = case['ops']
    for k, op in enumerate(ops):
        was = state
        if op == 'dissolve':
            data.dissolve('NAME')
            groups = {}
            for g, a in state:
                key = a['NAME']
                groups[key] = groups[key].union(g) if key in groups else g
            require(sorted(str(a['NAME']) for a in data.attribute) ==
                    sorted(map(str, groups)), 'dissolve: features of %s '
                    'instead of %s', [a['NAME'] for a in data.attribute],
                    list(groups))
            state = [(groups[a['NAME']], dict(a)) for a in data.attribute]
            busy = busy or len(state) < len(was)
        elif op == 'crop':
            mask = others[0][0]
            window = box(*mask.bounds)
            data.crop(mask)
            state = [(g.intersection(window), a) for g, a in state]
            if any(0 < g.area < 1e-9 * place[2] ** 2 for g, _ in state):
                raise Reject()
            state = [(g, a) for g, a in state if g.area]
            busy = True
        elif op == 'join':
            data.spatial_join(other, 'NAME')
            joined = []
            for (g, a), now in zip(state, data.attribute):
                parts = [g.intersection(o).area / g.area for o, _ in others]
                top = max(parts)
                if 0 < top < 1e-9:
                    raise Reject()
                if top > 0:
                    allowed = [b['NAME'] for p, (_, b) in zip(parts, others)
                               if p > top * (1 - 1e-9)]
                else:
                    allowed = [None] + [b['NAME'] for o, b in others
                                        if g.distance(o) < 1e-9]
                require(now['NAME'] in allowed, 'join: %r instead of %s for '
                        'overlaps of %s', now['NAME'], allowed, parts)
                joined.append((g, dict(a, NAME=now['NAME'])))
                busy = busy or top > 0
            state = joined
        else:
            path = ctx.path('saved %d.shp' % k)
            data.save(path)
            data = shp_file()
            data.read(path)
        require(len(data.geom) == len(data.attribute) == len(state),
                'after %s: %d features instead of %d', ops[:k + 1],
                len(data.geom), len(state))
        for i, ((g, a), got, now) in enumerate(zip(state, data.geom,
                                                   data.attribute)):
            off = apart(g, got)
            require(off < 1e-8, 'after %s: feature %d differs by %g of its '
                    'area', ops[:k + 1], i, off)
            require(dict(now) == a, 'after %s: feature %d has %s instead of '
                    '%s', ops[:k + 1], i, dict(now), a)
        if not state:
            break
    ctx.label('outlines', *['outlines: ' + op for op in set(ops)])
    ctx.nontrivial(busy)


def check(case, ctx):
    if case['op'] == 'outlines':
        return check_outlines(case, ctx)
    place, op = case['place'], case['op']
    folder = ctx.path('in')
    os.mkdir(folder)
    feats = [(i, f) for i, f in enumerate(case['features'])
             if f['cells'] is not None]
    state = [(shapes.mask(f['cells']), attributes(f, i)) for i, f in feats]
    data = load(os.path.join(folder, 'f %s.shp' % case['suffix']),
                case['features'], place)
    other = load(os.path.join(folder, 'others.shp'), case['others'], place)
    before = shapes.digest(folder)
    compare(data.geom, data.attribute, state, place, 'read')
    busy = len(state) > 1

    if op in ('dissolve', 'all'):
        by = case.get('by', 'NAME')

        def value_of(a):
            return None if a[by] == '' else a[by]
        for i, value in case.get('blank', []):
            if state and by == 'NAME':
                state[i % len(state)][1]['NAME'] = value
                data.attribute[i % len(state)]['NAME'] = value
        data.dissolve(by)
        groups = {}
        for cells, a in state:
            key = value_of(a)
            groups[key] = groups.get(key, np.zeros_like(cells)) | cells
        got = {}
        require(len(data.geom) == len(data.attribute), 'dissolve: %d shapes '
                'and %d attributes', len(data.geom), len(data.attribute))
        for g, a in zip(data.geom, data.attribute):
            require(value_of(a) not in got,
                    'dissolve: two features of %r', a[by])
            got[value_of(a)] = g
        require(set(got) == set(groups), 'dissolve: features of %s instead '
                'of %s', sorted(map(str, got)), sorted(map(str, groups)))
        for key in groups:
            diff = shapes.differs(got[key], groups[key], place)
            require(diff is None, 'dissolve: feature of %r: %s', key, diff)
        ctx.label('several dissolved' if len(groups) < len(state) else '')
        busy = len(groups) < len(state)
        state = [(groups[value_of(a)], None) for a in data.attribute]
        kept = [dict(a) for a in data.attribute]
        state = [(m, a) for (m, _), a in zip(state, kept)]
    if op in ('crop', 'all'):
        spec = case['others'][0]['cells']
        triangle, inside = crop_window(shapes.mask(spec), place, None)
        data.crop(triangle if case['mask'] == 'triangle' else
                  shapes.geometry(spec, place))
        was = len(state)
        state = [(m & inside, a) for m, a in state if (m & inside).any()]
        compare(data.geom, data.attribute, state, place, 'crop')
        ctx.label('dropped by the mask' if len(state) < was else '')
        busy = True
    if op in ('join', 'all') and state:
        shape_before = [g.wkb for g in data.geom]
        other_before = [(g.wkb, dict(a)) for g, a in
                        zip(other.geom, other.attribute)]
        masks = [shapes.mask(f['cells']) for f in case['others']]
        names = [f['name'] for f in case['others']]
        data.spatial_join(other, 'NAME')
        require([g.wkb for g in data.geom] == shape_before and
                [(g.wkb, dict(a)) for g, a in
                 zip(other.geom, other.attribute)] == other_before,
                'joining changes shapes, or the file that is joined')
        for i, (m, a) in enumerate(state):
            parts = [int((m & k).sum()) for k in masks]
            if max(parts) > 0:
                allowed = [n for n, p in zip(names, parts)
                           if p == max(parts)]
                ctx.label('choice by area' if sum(p > 0 for p in parts) > 1
                          else 'one overlaps')
            else:
                allowed = [n for n, k in zip(names, masks)
                           if shapes.touches(m, k)] + [None]
                ctx.label('none overlaps')
            got = dict(data.attribute[i])
            require(got['NAME'] in allowed, 'join: feature %d gets %r, not '
                    '%r, for overlaps of %s cells', i, got['NAME'], allowed,
                    parts)
            rest = {k: v for k, v in got.items() if k != 'NAME'}
            require(rest == {k: v for k, v in a.items() if k != 'NAME'},
                    'join: feature %d has %s', i, rest)
            busy = busy or max(parts) > 0
        state = [(m, dict(a)) for (m, _), a in zip(state, data.attribute)]
    if op in ('save', 'all') and state:
        out = ctx.path('saved.shp')
        data.save(out)
        got, crs = shapes.read(out)
        require(crs == data.meta['crs'], 'saved with the reference system %s',
                crs)
        compare([g for g, _ in got], [a for _, a in got], state, place,
                'saved')
        again = shp_file()
        again.read(out)
        compare(again.geom, again.attribute, state, place, 'read again')
    require(shapes.digest(folder) == before, 'the input files are changed')
    ctx.label(op, 'no geometry' if len(feats) < len(case['features']) else '')
    ctx.nontrivial(busy)
