"""Pixel sizes in metres are right over the whole raster."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo
from harness.core import Reject, require
from utilities.get_pixel_size_grid import get_pixel_size, \
    get_pixel_size_grids

ID = 'P18'
QUICK = 12000
THOROUGH = 40000
RULE = ('A case is a geographic or projected raster (shape from one cell to a '
        'degree, place, cell size, oblong cells) and pixels in it. The sizes '
        'are compared with the lengths from the radii of curvature of the '
        'ellipsoid at the ends of each pixel. Non-trivial: more than one '
        'row and column.')
ASSUMPTIONS = ['reference systems on the WGS84 or GRS80 ellipsoid']

PROJECTED = [3577, 3857, 32755, 32654, 28350, 28356, 3112]


@st.composite
def strategy(draw, tier):
    rows = draw(st.one_of(st.integers(1, 8), gen.number(1, 90, 1500)))
    cols = draw(st.one_of(st.integers(1, 8), gen.number(1, 90, 1500)))
    epsg = draw(st.sampled_from([4326, 4326, 4326, 4283] +
                                PROJECTED))
    if epsg in (4326, 4283):
        # the property is about rasters of up to a degree
        limit = 1.0 / max(rows * 1.5, cols)
        pw = draw(st.one_of(st.sampled_from([0.00027777777777778, 0.0025,
                                             0.01]),
                            gen.rounded(0.0002, 0.01, 5),
                            st.just(min(limit, 0.02))))
        pw = min(pw, limit)
        ph = draw(st.sampled_from([1, 1, 0.8, 1.5])) * pw
        x0 = draw(st.one_of(gen.rounded(112, 153, 3),
                            gen.rounded(-180, 178, 2),
                            st.sampled_from([179.9, -180, 0])))
        y0 = draw(st.one_of(gen.latitudes(), st.sampled_from([0, 0.5])))
    else:
        pw = min(draw(gen.rounded(5, 900, 1)), 1e5 / max(rows, cols))
        ph = draw(st.sampled_from([1, 1, 0.5, 2])) * pw
        # where the projection is meant for
        lon = {32755: 147, 32654: 141, 28350: 117, 28356: 153}.get(
            epsg, None)
        lon = draw(gen.rounded(114, 152, 2)) if lon is None else \
            lon + draw(gen.rounded(-2.5, 2.5, 2))
        x0, y0 = lon, draw(gen.rounded(-43, -11, 2)) if epsg != 32654 else \
            draw(gen.rounded(5, 60, 2))
    return {'rows': rows, 'cols': cols, 'epsg': epsg, 'pw': pw, 'ph': ph,
            'x0': x0, 'y0': y0,
            'pixels': draw(st.lists(st.tuples(
                st.integers(0, rows - 1), st.integers(0, cols - 1)),
                min_size=1, max_size=5, unique=True))}


def transform(epsg):
    s = geo.osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    t = s.CloneGeogCS()
    for r in (s, t):
        r.SetAxisMappingStrategy(geo.osr.OAMS_TRADITIONAL_GIS_ORDER)
    return (geo.osr.CoordinateTransformation(s, t),
            geo.osr.CoordinateTransformation(t, s))


def length(p, q):
    """Geodesic length of a short line between points in degrees."""
    lon1, lat1 = p[:2]
    lon2, lat2 = q[:2]
    mid = math.radians((lat1 + lat2) / 2)
    dlat = math.radians(lat2 - lat1)
    dlon = math.radians((lon2 - lon1 + 180) % 360 - 180)
    return math.hypot(geo.meridian_radius(mid) * dlat,
                      geo.prime_radius(mid) * math.cos(mid) * dlon)


def sizes(case, t, r, c):
    x0, y0, pw, ph = case['geo']

    def at(i, j):
        x, y = x0 + j * pw, y0 - i * ph
        return t.TransformPoint(x, y) if t else (x, y)
    return (length(at(r + 0.5, c), at(r + 0.5, c + 1)),
            length(at(r, c + 0.5), at(r + 1, c + 0.5)))


def check(case, ctx):
    rows, cols, epsg = case['rows'], case['cols'], case['epsg']
    x0, y0, pw, ph = case['x0'], case['y0'], case['pw'], case['ph']
    t = None
    if epsg not in (4326, 4283):
        t, inverse = transform(epsg)
        x0, y0 = inverse.TransformPoint(x0, y0)[:2]
        y0 = round(y0, 2)
        x0 = round(x0, 2)
    elif abs(y0) > 75 or abs(y0 - rows * ph) > 76:
        raise Reject()
    case = dict(case, geo=(x0, y0, pw, ph))
    ds = geo.mem_raster(np.zeros((rows, cols)), x0, y0, pw, ph, 'uint8',
                        projection=geo.wkt(epsg))
    xs, ys = get_pixel_size_grids(ds)
    require(np.shape(xs) == (rows, cols) and np.shape(ys) == (rows, cols),
            'grids of shape %s and %s for %d x %d cells', np.shape(xs),
            np.shape(ys), rows, cols)
    pixels = case['pixels'] + [[0, 0], [rows - 1, cols - 1], [rows - 1, 0],
                               [rows // 2, cols // 2]]
    for r, c in pixels:
        want = sizes(case, t, r, c)
        got = get_pixel_size(ds, (c, r))
        for k in (0, 1):
            require(abs(got[k] / want[k] - 1) < 2e-6, '%s of pixel (row %d, '
                    'column %d) is %r m, not %r', 'width height'.split()[k],
                    r, c, got[k], want[k])
            g = float((xs, ys)[k][r][c])
            require(abs(g / want[k] - 1) < 1e-3, 'grid of the %s at (row %d, '
                    'column %d) has %r m, not %r', 'width height'.split()[k],
                    r, c, g, want[k])
    if t is None:
        wx, wy = geo.pixel_sizes(rows, cols, y0, pw, ph)
        for g, w, what in ((xs, wx, 'width'), (ys, wy, 'height')):
            err = np.abs(np.asarray(g, float) / w - 1)
            require(err.max() < 1e-3, 'grid of the %s is off by a factor %g '
                    'at %s', what, err.max(), np.unravel_index(
                        err.argmax(), err.shape))
    ctx.label('geographic' if t is None else 'EPSG:%d' % epsg,
              'one row or column' if 1 in (rows, cols) else '',
              'oblong' if pw != ph else '')
    ctx.nontrivial(rows > 1 and cols > 1)
