"""
Shapefiles of polygons made of the cells of a grid, so that areas, unions and
overlaps can be counted.
"""
import os

import numpy as np
from hypothesis import strategies as st

N = 10


@st.composite
def cells(draw, n=N, kinds=None):
    """
    A set of cells: [kind, rectangles], each rectangle [r0, c0, r1, c1] with
    the upper ends left out; kind 'hole' leaves the second one out.
    """
    kind = draw(st.sampled_from(kinds or ['one', 'one', 'one', 'two',
                                          'hole', 'three']))

    def rectangle():
        r0 = draw(st.integers(0, n - 1))
        c0 = draw(st.integers(0, n - 1))
        return [r0, c0, draw(st.integers(r0 + 1, n)),
                draw(st.integers(c0 + 1, n))]
    if kind == 'hole':
        r0 = draw(st.integers(0, n - 3))
        c0 = draw(st.integers(0, n - 3))
        r1 = draw(st.integers(r0 + 3, n))
        c1 = draw(st.integers(c0 + 3, n))
        return [kind, [[r0, c0, r1, c1], [r0 + 1, c0 + 1, r1 - 1, c1 - 1]]]
    return [kind, [rectangle() for _ in
                   range({'one': 1, 'two': 2, 'three': 3}[kind])]]


def mask(spec, n=N):
    """The cells as a boolean array"""
    kind, parts = spec
    out = np.zeros((n, n), dtype=bool)
    for i, (r0, c0, r1, c1) in enumerate(parts):
        out[r0:r1, c0:c1] = not (kind == 'hole' and i == 1)
    return out


def rectangle(spec, place):
    from shapely.geometry import box
    x0, y0, step = place
    r0, c0, r1, c1 = spec
    return box(x0 + c0 * step, y0 - r1 * step, x0 + c1 * step,
               y0 - r0 * step)


def geometry(spec, place):
    """Polygon or MultiPolygon of the cells"""
    from shapely.ops import unary_union
    kind, parts = spec
    boxes = [rectangle(p, place) for p in parts]
    if kind == 'hole':
        return boxes[0].difference(boxes[1])
    return unary_union(boxes)


@st.composite
def outline(draw):
    """
    A polygon of any shape around a point of a square of 1000 by 1000, as
    [x, y, radii, details]: a detail is a vertex a little off an edge
    """
    n = draw(st.integers(3, 9))
    return [draw(st.integers(0, 1000)), draw(st.integers(0, 1000)),
            draw(st.lists(st.integers(20, 700), min_size=n, max_size=n)),
            draw(st.lists(st.tuples(st.integers(0, n - 1),
                                    st.integers(-30, 30)), max_size=4))]


def polygon(spec, place):
    """The polygon of an outline, a detail is up to 3 % of 1 % of a cell"""
    from shapely.geometry import Polygon
    x, y, radii, details = spec
    x0, y0, step = place
    angle = 2 * np.pi * (np.arange(len(radii)) + 0.1) / len(radii)
    points = np.column_stack([x + radii * np.sin(angle),
                              y + radii * np.cos(angle)]) / 100.0
    out = []
    for i, p in enumerate(points):
        out.append(p)
        q = points[(i + 1) % len(points)]
        for off in [d for k, d in details if k == i and d][:1]:
            along = (q - p) / np.hypot(*(q - p))
            out.append((p + q) / 2 + along[::-1] * [1, -1] * off * 1e-4)
    return Polygon(np.array([x0, y0]) + np.array(out) * [step, -step])


def write(path, features, fields, crs='EPSG:4326'):
    """features: list of (geometry or None, attributes)"""
    import fiona
    from shapely.geometry import mapping
    schema = {'geometry': 'Polygon', 'properties': fields}
    with fiona.open(path, 'w', driver='ESRI Shapefile', schema=schema,
                    crs=crs, encoding='UTF-8') as f:
        for g, attributes in features:
            f.write({'geometry': None if g is None else mapping(g),
                     'properties': attributes})
    return path


def read(path):
    """List of (geometry, attributes), and the reference system"""
    import fiona
    from shapely.geometry import shape
    out = []
    with fiona.open(path) as f:
        crs = f.crs
        for feature in f:
            g = feature['geometry']
            out.append((None if g is None else shape(g),
                        dict(feature['properties'])))
    return out, crs


def differs(g, want, place):
    """
    None if a geometry is that of an array of cells (which may be larger than
    N x N cells), else what differs
    """
    from shapely import contains_xy
    x0, y0, step = place
    if g is None or g.is_empty:
        return None if not want.any() else 'it is empty'
    area = g.area / step ** 2
    if abs(area - want.sum()) > 1e-6 * max(1, want.sum()):
        return 'its area is %g cells instead of %d' % (area, want.sum())
    r, c = np.mgrid[0:want.shape[0], 0:want.shape[1]]
    got = contains_xy(g, (x0 + (c + 0.5) * step).ravel(),
                      (y0 - (r + 0.5) * step).ravel()).reshape(want.shape)
    if (got != want).any():
        return 'it covers other cells'
    return None


def touches(a, b):
    """Whether two sets of cells have at least a corner in common"""
    big = np.pad(b, 1)
    grown = np.zeros_like(b)
    n, m = b.shape
    for i in range(3):
        for j in range(3):
            grown |= big[i:i + n, j:j + m]
    return bool((a & grown).any())


def digest(folder):
    """Contents of all the files of a folder"""
    out = {}
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name)
        if os.path.isfile(path):
            with open(path, 'rb') as f:
                out[name] = f.read()
    return out


places = st.tuples(
    st.sampled_from([0.0, 145.0, -12.0, 153.25]),
    st.sampled_from([0.0, -20.0, 40.5]),
    # a cell is from 110 km to 7 m
    st.sampled_from([1.0, 0.5, 0.125, 2.0 ** -7, 2.0 ** -10, 2.0 ** -12,
                     2.0 ** -14])).map(list)
