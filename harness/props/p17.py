"""Geodesic distance, azimuth and projected points are consistent."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from harness import gen
from harness.core import Reject, require
from utilities.vincenty import GreatCircle, vinc_dist, vinc_pt

ID = 'P17'
QUICK = 40000
THOROUGH = 200000
RULE = ('A case is an ellipsoid (also a sphere), two points that are near, '
        'far, on one parallel or meridian, on the equator, across the date '
        'line or the same, and a number of points. Distance and azimuths are '
        'compared with the numerical integration of the geodesic equations, '
        'and with the swapped and the projected points. Non-trivial: the '
        'points differ.')
ASSUMPTIONS = ['points are less than 170 degrees of arc apart',
               'points closer than 1e-8 radians in latitude and longitude '
               'count as the same point (the code says so)']

ELLIPSOIDS = [(6378137.0, 6356752.3142), (6378137.0, 6356752.3141403),
              (6378160.0, 6356774.719), (6378137.0, 6356752.3142),
              (6371000.0, 6371000.0), (1.0, 0.99664719),
              (6378137.0, 6378137.0 * (1 - 1 / 150.0)),
              (3396190.0, 3376200.0), (6378137.0, 6378137.0 * (1 - 1e-6))]
LAT = st.one_of(gen.rounded(-45, -9, 4), gen.rounded(-85, 85, 4),
                st.sampled_from([0, 0, 45, -45, 30, -30, 60]))
LON = st.one_of(gen.rounded(112, 154, 4), gen.rounded(-180, 180, 4),
                st.sampled_from([0, 180, -180, 90, 179.9]))


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(['near', 'near', 'pixel', 'any', 'any',
                                 'parallel', 'meridian', 'equator', 'date',
                                 'same']))
    lat1, lon1 = draw(LAT), draw(LON)
    if kind == 'near':
        lat2 = lat1 + draw(gen.rounded(-1, 1, 4))
        lon2 = lon1 + draw(gen.rounded(-1, 1, 4))
    elif kind == 'pixel':
        size = draw(st.sampled_from([0.00027777777777778, 0.0025, 0.00001]))
        ns = draw(st.booleans())
        lat2 = lat1 + (size if ns else 0)
        lon2 = lon1 + (0 if ns else size)
    elif kind == 'parallel':
        lat2, lon2 = lat1, draw(LON)
    elif kind == 'meridian':
        lat2, lon2 = draw(LAT), lon1
    elif kind == 'equator':
        lat1 = lat2 = 0.0
        lon2 = lon1 + draw(st.one_of(gen.rounded(-160, 160, 4),
                                     gen.rounded(-1, 1, 4)))
    elif kind == 'date':
        lon1 = draw(gen.rounded(175, 180, 3))
        lat2, lon2 = draw(LAT), draw(gen.rounded(-180, -175, 3))
    elif kind == 'same':
        lat2, lon2 = lat1, lon1
    else:
        lat2, lon2 = draw(LAT), draw(LON)
    return {'kind': kind, 'p': [lat1, lon1, lat2, lon2],
            # a point to go to, in any direction
            'azimuth': draw(st.one_of(
                gen.rounded(-180, 360, 3),
                st.sampled_from([0, 90, 180, 270, 360, -90, -180]))),
            'reach': draw(st.one_of(gen.rounded(0, 0.001, 7),
                                    gen.rounded(0, 0.1, 4),
                                    gen.rounded(0, 4, 3))),
            'ellipsoid': draw(st.integers(0, len(ELLIPSOIDS) - 1)),
            'n': draw(st.one_of(st.sampled_from([2, 3]),
                                gen.number(2, 25, 400)))}


def arc(lat1, lon1, lat2, lon2):
    return 2 * math.asin(min(1, math.sqrt(
        math.sin((lat1 - lat2) / 2) ** 2 + math.cos(lat1) * math.cos(lat2) *
        math.sin((lon1 - lon2) / 2) ** 2)))


def cartesian(a, b, lat, lon):
    n = a * a / math.sqrt((a * math.cos(lat)) ** 2 + (b * math.sin(lat)) ** 2)
    return np.array([n * math.cos(lat) * math.cos(lon),
                     n * math.cos(lat) * math.sin(lon),
                     n * (b / a) ** 2 * math.sin(lat)])


def frame(lat, lon):
    east = np.array([-math.sin(lon), math.cos(lon), 0])
    north = np.array([-math.sin(lat) * math.cos(lon),
                      -math.sin(lat) * math.sin(lon), math.cos(lat)])
    return east, north


def follow(a, b, lat, lon, azimuth, s):
    """
    End point and direction of the geodesic: the curve on the ellipsoid
    whose acceleration is normal to it.
    """
    m = np.array([1.0, 1.0, (a / b) ** 2])
    east, north = frame(lat, lon)
    r0 = cartesian(a, b, lat, lon) / a
    v0 = math.sin(azimuth) * east + math.cos(azimuth) * north

    def slope(t, y):
        r, v = y[:3], y[3:]
        n = m * r
        return np.concatenate([v, -n * (v @ (m * v)) / (n @ n)])

    out = solve_ivp(slope, (0, s / a), np.concatenate([r0, v0]),
                    method='DOP853', rtol=1e-12, atol=1e-13)
    y = out.y[:, -1]
    return y[:3] * a, y[3:]


def check(case, ctx):
    a, b = ELLIPSOIDS[case['ellipsoid']]
    f = (a - b) / a
    lat1, lon1, lat2, lon2 = [math.radians(v) for v in case['p']]
    gc = arc(lat1, lon1, lat2, lon2)
    if gc > math.radians(170):
        raise Reject()
    s, a12, a21 = vinc_dist(f, a, lat1, lon1, lat2, lon2)
    same = abs(lat1 - lat2) < 1e-12 and gc < 1e-12
    ctx.label(case['kind'], 'sphere' if f == 0 else '')
    # the code stops when the longitude on the sphere changes by 1e-9 of it
    slip = a * (3e-11 + 2e-9 * abs(lon2 - lon1)) + 1e-9 * s
    tol = slip
    back, b12, b21 = vinc_dist(f, a, lat2, lon2, lat1, lon1)
    require(abs(back - s) <= tol, 'distance %r, backward %r', s, back)
    if same:
        require(abs(s) <= tol, 'distance of a point to itself is %r', s)
    else:
        require(s > 0, 'distance %r between different points', s)
        require((1 - 2.1 * f - 1e-6) * gc < s / a <
                (1 + 1.1 * f + 1e-6) * gc, 'distance %r for an arc of '
                '%r', s, gc)
        for x, y, what in ((a12, b21, 'forward'), (a21, b12, 'reverse')):
            # a direction is only as sure as the position
            slack = 1e-8 + 3e-15 / math.sin(min(gc, math.pi / 2)) + \
                3e-9 / max(math.sin(gc), 1e-9) * (gc > 1)
            turn = abs((x - y + math.pi) % (2 * math.pi) - math.pi)
            require(turn < slack, '%s azimuth is %r, and %r from the other '
                    'point', what, x, y)
        # along the geodesic
        end, heading = follow(a, b, lat1, lon1, a12, s)
        there = cartesian(a, b, lat2, lon2)
        gap = np.linalg.norm(end - there)
        require(gap < slip, 'going %r at azimuth %r ends %r '
                'away', s, a12, gap)
        east, north = frame(lat2, lon2)
        bearing = math.atan2(-heading @ east, -heading @ north)
        turn = abs((bearing - a21 + math.pi) % (2 * math.pi) - math.pi)
        require(turn < 1e-7 + 3e-15 / gc + 1e-7 * (gc > 1),
                'reverse azimuth is %r, not %r', a21,
                bearing % (2 * math.pi))
        require(-1e-12 <= a12 <= 2 * math.pi + 1e-12 and
                -1e-12 <= a21 <= 2 * math.pi + 1e-12,
                'azimuths %r and %r', a12, a21)
    # projected point
    p_lat, p_lon, p_21 = vinc_pt(f, a, lat1, lon1, a12, s)
    gap = np.linalg.norm(cartesian(a, b, p_lat, p_lon) -
                         cartesian(a, b, lat2, lon2))
    require(gap < slip, 'the point %r away at azimuth %r is '
            '%r off', s, a12, gap)
    if not same:
        turn = abs((p_21 - a21 + math.pi) % (2 * math.pi) - math.pi)
        require(turn < 1e-7 + 3e-15 / gc + 1e-7 * (gc > 1),
                'reverse azimuth of the projected point is %r, not %r', p_21,
                a21)
    check_projected(case, a, b, f, lat1, lon1)
    # points on the great circle
    if not (same and f == 0):
        check_points(case, a, b, f, s, same)
    ctx.nontrivial(not same)


def check_projected(case, a, b, f, lat1, lon1):
    azimuth, s = math.radians(case['azimuth']), case['reach'] * a
    lat, lon, back = vinc_pt(f, a, lat1, lon1, azimuth, s)
    end, heading = follow(a, b, lat1, lon1, azimuth, s)
    gap = np.linalg.norm(end - cartesian(a, b, lat, lon))
    slack = a * 1e-11 + 1e-9 * s * (1 + (300 * f) ** 3)
    require(gap < slack, 'the point %r away at azimuth %r is %r off', s,
            azimuth, gap)
    east, north = frame(lat, lon)
    bearing = math.atan2(-heading @ east, -heading @ north)
    turn = abs((bearing - back + math.pi) % (2 * math.pi) - math.pi)
    require(turn * max(math.cos(lat), 1e-9) < 1e-8 + slack / a,
            'back from the point %r away at azimuth %r is %r, not %r', s,
            azimuth, back, bearing % (2 * math.pi))
    require(-math.pi / 2 <= lat <= math.pi / 2 and
            -1e-12 <= back <= 2 * math.pi + 1e-12,
            'latitude %r and reverse azimuth %r', lat, back)


def check_points(case, a, b, f, s, same):
    lat1, lon1, lat2, lon2 = case['p']
    n = case['n']
    circle = GreatCircle(a, b, lon1, lat1, lon2, lat2)
    require(abs(circle.distance - s) <= 1e-9 * (a + s),
            'great circle of length %r, distance %r', circle.distance, s)
    lons, lats = circle.points(n)
    require(len(lons) == n and len(lats) == n, '%d longitudes and %d '
            'latitudes for %d points', len(lons), len(lats), n)
    xyz = np.array([cartesian(a, b, math.radians(y), math.radians(x))
                    for x, y in zip(lons, lats)])
    ends = [cartesian(a, b, math.radians(lat1), math.radians(lon1)),
            cartesian(a, b, math.radians(lat2), math.radians(lon2))]
    for k, i in ((0, 0), (1, -1)):
        gap = np.linalg.norm(xyz[i] - ends[k])
        require(gap < 1e-8 * a, 'point %d of a great circle is %r off', i,
                gap)
    if same:
        return
    if f == 0:
        # chords of equal arcs
        want = 2 * a * math.sin(s / a / (n - 1) / 2)
        gaps = np.linalg.norm(np.diff(xyz, axis=0), axis=1)
    else:
        want = s / (n - 1)
        gaps = np.array([vinc_dist(
            f, a, math.radians(lats[i]), math.radians(lons[i]),
            math.radians(lats[i + 1]), math.radians(lons[i + 1]))[0]
            for i in range(n - 1)])
    require(np.abs(gaps - want).max() < 3e-8 * a, 'steps from %r to %r '
            'along a great circle, not %r', gaps.min(), gaps.max(), want)
