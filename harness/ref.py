"""Reference models, written from the definitions and not from the code."""
import math

import numpy as np

from .geo import UPWIND, pixel_sizes


# ------------------------------------------------------------ terrain (Mz)

def mz_of_roughness(z0):
    return -0.2827 * math.log(0.4554 * math.log(z0) + 3.734) + 1.0762


NEAR = (1, 1 - 3e-4, 1 + 3e-4)


def terrain_choices(direction, g, avg=500.0, lag=200.0):
    """
    Cells to average and cells to skip for a direction and a mean cell size:
    more than one pair if rounding could go either way
    """
    def widths(size):
        if len(direction) == 1:
            return (int(np.around(avg / size)), int(np.around(lag / size)))
        return (int(avg / (size * 1.414)), int(lag / (size * 1.414)))

    return list(dict.fromkeys(widths(g * f) for f in NEAR))


def terrain_widths(direction, g):
    """The only choice, None if there are more"""
    w = terrain_choices(direction, g)
    return w[0] if len(w) == 1 else None


def upwind_mean(data, direction, avg, lag):
    """
    Mean of up to avg cells after lag cells upwind, within the array; the
    value itself where there is none. By cumulative shifted sums.
    """
    rows, cols = data.shape
    dr, dc = UPWIND[direction]
    total = np.zeros((rows, cols))
    number = np.zeros((rows, cols))
    ri, ci = np.mgrid[0:rows, 0:cols]
    for k in range(lag + 1, lag + avg + 1):
        r, c = ri + k * dr, ci + k * dc
        ok = (r >= 0) & (r < rows) & (c >= 0) & (c < cols)
        if not ok.any():
            break
        total[ok] += data[r[ok], c[ok]]
        number[ok] += 1
    return np.where(number > 0, total / np.maximum(number, 1), data)


def terrain_multipliers(classes, table, direction, g):
    """
    Terrain multipliers of a whole tile, more than one if rounding is
    undecided, none if there is no class in the tile
    """
    init = np.zeros(classes.shape)
    for category, z0, _ in table:
        init[classes == category] = mz_of_roughness(z0)
    if not (init != 0).any():
        return []
    missing = init == 0
    init[missing] = 1.0
    found = []
    for avg, lag in terrain_choices(direction, g):
        out = upwind_mean(init, direction, avg, lag)
        out[missing] = np.nan
        found.append(out)
    return found


def terrain_multiplier(classes, table, direction, g):
    """
    Terrain multiplier of a whole tile, None if rounding is undecided,
    and 'skipped' if there is no class in the tile.
    """
    found = terrain_multipliers(classes, table, direction, g)
    return 'skipped' if not found else found[0] if len(found) == 1 else None


# ---------------------------------------------------------- shielding (Ms)

ASPECT = {'n': 1, 'ne': 2, 'e': 3, 'se': 4, 's': 5, 'sw': 6, 'w': 7, 'nw': 8}
ANGLE = {'n': 0., 'ne': 45., 'e': 90., 'se': 135., 's': 180., 'sw': 225.,
         'w': 270., 'nw': 315.}


def gradient(dem, xm, ym):
    """Horn's gradient (east, south) with the edge repeated; metres."""
    p = np.pad(dem, 1, mode='symmetric')
    a, b, c = p[:-2, :-2], p[:-2, 1:-1], p[:-2, 2:]
    d, f = p[1:-1, :-2], p[1:-1, 2:]
    g, h, i = p[2:, :-2], p[2:, 1:-1], p[2:, 2:]
    east = ((c + 2 * f + i) - (a + 2 * d + g)) / (8 * xm)
    south = ((g + 2 * h + i) - (a + 2 * b + c)) / (8 * ym)
    return east, south


def slope_aspect(dem, y0, pw, ph):
    """
    Slope in degrees and downhill bearing in degrees (NaN where flat or
    unknown)
    """
    xm, ym = pixel_sizes(dem.shape[0], dem.shape[1], y0, pw, ph)
    east, south = gradient(dem, xm, ym)
    slope = np.degrees(np.arctan(np.hypot(east, south)))
    # downhill vector: east component -east, north component +south
    bearing = np.degrees(np.arctan2(-east, south)) % 360.0
    slope = np.where(np.isnan(dem), np.nan, slope)
    bearing = np.where(np.hypot(east, south) > 0, bearing, np.nan)
    return slope, bearing


def octant(bearing):
    """Class 1 to 8 of a bearing, 0 where unknown."""
    with np.errstate(invalid='ignore'):
        k = np.floor(((bearing + 22.5) % 360.0) / 45.0) + 1
    return np.where(np.isnan(bearing), 0, k).astype(int)


def octant_margin(bearing):
    """Degrees from the nearest edge between octants."""
    return np.abs(((bearing + 22.5) % 45.0 + 22.5) % 45.0 - 22.5)


def shielding_zone(direction, size):
    """Offsets (row, column) of the cells averaged for a direction."""
    dr, dc = UPWIND[direction]
    cells = []
    if len(direction) == 1:
        # across the wind
        ar, ac = (dc, dr)
        for k in range(1, size + 1):
            for side in ((0,) if k == 1 else (-1, 0, 1)):
                cells.append((k * dr + side * ar, k * dc + side * ac))
    else:
        for k in range(1, size + 1):
            for j in range(1, size + 1):
                if j + k <= size + 1:
                    cells.append((k * dr, j * dc))
    return cells


def zone_mean(data, cells, outside=1.0):
    rows, cols = data.shape
    ri, ci = np.mgrid[0:rows, 0:cols]
    total = np.zeros((rows, cols))
    for dr, dc in cells:
        r, c = ri + dr, ci + dc
        ok = (r >= 0) & (r < rows) & (c >= 0) & (c < cols)
        v = np.full((rows, cols), outside)
        v[ok] = data[r[ok], c[ok]]
        total += v
    return total / len(cells)


def shield_combine(mean, slope, facing):
    """facing: where the ground faces the wind"""
    with np.errstate(invalid='ignore'):
        f = np.clip((slope - 3.27) / (12.30 - 3.27), 0, 1)
    f = np.where(np.isnan(f) | ~facing, 0, f)
    out = mean + (1 - mean) * f
    return np.where(out < 0.9, out * 0.9, out ** 2)


def shielding_initial(classes, table):
    init = np.ones(classes.shape)
    for category, _, ms in table:
        init[classes == category] = ms / 100.0
    return init


# ---------------------------------------------------------- topography (Mt)

def climbs(y):
    """Maximal runs [v, r] along which y rises strictly."""
    out = []
    i, n = 0, len(y)
    while i < n - 1:
        if y[i + 1] > y[i]:
            j = i + 1
            while j < n - 1 and y[j + 1] > y[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def _near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def climb_effect(y, v, r, s):
    """
    Lower and upper bound of the effect of a climb on the line: they differ
    only where a condition is met to within rounding.
    """
    n = len(y)
    lo = np.ones(n)
    hi = np.ones(n)
    h = float(y[r] - y[v])
    cells = r - v
    length = cells * s
    slope = h / length
    if h < 10 or cells < 2:
        return lo, hi
    if slope < 0.05 and not _near(slope, 0.05):
        return lo, hi
    maybe_none = _near(slope, 0.05)
    l1 = max(0.36 * length / 2, 0.4 * h)
    l2 = 4 * l1
    k = np.arange(n)
    x = (r - k) * s
    betas = [min(n - 1, r + cells)]
    if math.floor(r + 2 * (cells * s / 2) / s) != r + cells:
        betas.append(min(n - 1, r + cells - 1))
    results = []
    for b in betas:
        if b > r:
            e = 2.5 - 1.5 * ((y[r] - y[b]) / ((b - r) * s)) / slope
            e = min(3.0, max(0.5, e))
        else:
            e = 1.0
        peak = h / (3.5 * (10 + l1))
        m = np.ones(n)
        up = (x >= 0) & (x < l2)
        m[up] = np.minimum(1.71, 1 + peak * (1 - x[up] / l2))
        down = (x < 0) & (x > -e * l2)
        m[down] = np.minimum(1.71, 1 + peak * (1 - np.abs(x[down]) /
                                               (e * l2)))
        steep = [slope > 0.45]
        if _near(slope, 0.45):
            steep = [True, False]
        even = [abs(e - 1) < 0.2]
        if _near(abs(e - 1), 0.2):
            even = [True, False]
        for st in steep:
            for ev in even:
                if st and ev:
                    mm = m.copy()
                    close_lee = (x < 0) & (x > -h / 4)
                    mm[close_lee] = 1 + 0.71 * (1 - np.abs(x[close_lee]) /
                                                (e * l2))
                    results.append(mm)
                    edge = (x < 0) & (np.abs(x + h / 4) <= 1e-9 * (1 + h))
                    if edge.any():
                        m2 = mm.copy()
                        m2[edge] = m[edge]
                        results.append(m2)
                        m3 = mm.copy()
                        m3[edge] = 1 + 0.71 * (1 - np.abs(x[edge]) /
                                               (e * l2))
                        results.append(m3)
                else:
                    results.append(m)
    if maybe_none:
        results.append(np.ones(n))
    return np.min(results, axis=0), np.max(results, axis=0)


def line_multiplier(line, s):
    """Bounds of the hill-shape multiplier of a line, upwind first."""
    y = np.floor(np.asarray(line, dtype=float))
    lo = np.ones(len(y))
    hi = np.ones(len(y))
    for v, r in climbs(y):
        a, b = climb_effect(y, v, r, s)
        lo = np.maximum(lo, a)
        hi = np.maximum(hi, b)
    return lo, hi


def wind_lines(rows, cols, direction):
    """Lists of cells (row, column), each along the wind, upwind first."""
    dr, dc = UPWIND[direction]
    dr, dc = -dr, -dc       # downwind
    lines = []
    for r in range(rows):
        for c in range(cols):
            pr, pc = r - dr, c - dc
            if 0 <= pr < rows and 0 <= pc < cols:
                continue
            line = []
            i, j = r, c
            while 0 <= i < rows and 0 <= j < cols:
                line.append((i, j))
                i += dr
                j += dc
            lines.append(line)
    return lines


def less_conservative(m):
    m = np.asarray(m, dtype=float)
    return np.where(m >= 1.4, 0.9 * m,
                    np.where(m > 1, m * (1.25 - 0.25 * m), m))


def tasmanian(m, dem):
    with np.errstate(invalid='ignore'):
        high = dem > 500.0
    return np.where(high, m * (1 + 0.00015 * np.where(high, dem, 0)), m)


def mean3(a):
    p = np.pad(a, 1, mode='edge')
    rows, cols = a.shape
    return sum(p[i:i + rows, j:j + cols]
               for i in range(3) for j in range(3)) / 9.0


def topographic_multiplier(dem, direction, g, in_tasmania=False):
    """Bounds of the topographic multiplier of a tile (dem: NaN missing)."""
    filled = np.where(np.isnan(dem), 0.0, dem)
    s = g * math.sqrt(2) if len(direction) == 2 else g
    lo = np.ones(dem.shape)
    hi = np.ones(dem.shape)
    for line in wind_lines(dem.shape[0], dem.shape[1], direction):
        idx = tuple(np.array(line).T)
        lo[idx], hi[idx] = line_multiplier(filled[idx], s)
    out = []
    for m in (lo, hi):
        m = less_conservative(m)
        if in_tasmania:
            m = tasmanian(m, dem)
        m = mean3(m)
        m[np.isnan(dem)] = np.nan
        out.append(m)
    return out
