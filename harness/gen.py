"""Hypothesis strategies of plain JSON specifications, and their builders."""
import math

import numpy as np
from hypothesis import strategies as st


def floats(lo, hi, width=64):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False,
                     allow_infinity=False, allow_subnormal=False)


def rounded(lo, hi, digits):
    """Decimal numbers with a fixed number of digits."""
    f = 10 ** digits
    return st.integers(math.ceil(lo * f), math.floor(hi * f)).map(
        lambda k: round(k / f, digits))


def byte_grid(n):
    """Bytes of a grid: each one chosen, or a seed for many of them"""
    seed = st.integers(0, 2 ** 32 - 1).map(lambda k: '~%d' % k)
    if n > 600:
        return seed
    each = st.binary(min_size=n, max_size=n).map(bytes.hex)
    return st.one_of(each, seed) if n > 60 else each


def unbytes(text, shape):
    """Array of a grid of bytes"""
    if text.startswith('~'):
        return np.random.RandomState(int(text[1:])).randint(
            0, 256, shape).astype(float)
    return np.frombuffer(bytes.fromhex(text), dtype=np.uint8).reshape(
        shape).astype(float)


def stretch(low, rows, cols):
    """Bilinear enlargement of a small array."""
    low = np.asarray(low, dtype=float)
    r = np.linspace(0, low.shape[0] - 1, rows) if rows > 1 else np.zeros(1)
    c = np.linspace(0, low.shape[1] - 1, cols) if cols > 1 else np.zeros(1)
    r0 = np.minimum(np.floor(r).astype(int), max(low.shape[0] - 2, 0))
    c0 = np.minimum(np.floor(c).astype(int), max(low.shape[1] - 2, 0))
    r1 = np.minimum(r0 + 1, low.shape[0] - 1)
    c1 = np.minimum(c0 + 1, low.shape[1] - 1)
    fr = (r - r0)[:, None]
    fc = (c - c0)[None, :]
    return ((1 - fr) * (1 - fc) * low[np.ix_(r0, c0)] +
            (1 - fr) * fc * low[np.ix_(r0, c1)] +
            fr * (1 - fc) * low[np.ix_(r1, c0)] +
            fr * fc * low[np.ix_(r1, c1)])


def number(lo, hi, many, times=19):
    """Mostly a number from lo to hi, at times up to many"""
    return st.sampled_from([False] * times + [True]).flatmap(
        lambda large: st.integers(hi, many) if large else
        st.integers(lo, hi))


@st.composite
def shape(draw, usual, least=1, thin=700, big=160):
    """Rows and columns: mostly some, at times many in one or both ways"""
    kind = draw(st.sampled_from(['usual'] * 17 + ['wide', 'high', 'big']))
    some = st.integers(least, usual)
    few = st.integers(least, max(least, 5))
    if kind == 'wide':
        return draw(few), draw(st.integers(usual, thin))
    if kind == 'high':
        return draw(st.integers(usual, thin)), draw(few)
    if kind == 'big':
        return (draw(st.integers(usual, big)), draw(st.integers(usual, big)))
    return draw(some), draw(some)


DEM_KINDS = ['hills', 'smooth', 'noise', 'plane', 'steps', 'flat']


@st.composite
def dem_spec(draw, rows, cols, amplitude=None, kinds=None):
    """Specification of an elevation array of a given shape."""
    kind = draw(st.sampled_from(kinds or DEM_KINDS))
    spec = {'kind': kind, 'rows': rows, 'cols': cols,
            'base': draw(st.sampled_from([0, 0, 1, 37, 480, 900, -20])),
            'amp': amplitude if amplitude is not None else
            draw(st.sampled_from([15, 60, 200, 500, 1500]))}
    if kind == 'hills':
        spec['hills'] = draw(st.lists(st.fixed_dictionaries({
            'r': rounded(-0.2, 1.2, 2), 'c': rounded(-0.2, 1.2, 2),
            'h': rounded(-1, 1, 2), 'w': rounded(0.5, 15, 1),
            'shape': st.sampled_from(['cone', 'bell', 'mesa', 'ridge_ns',
                                      'ridge_ew'])}),
            min_size=1, max_size=4))
    elif kind in ('smooth', 'steps'):
        k = draw(st.integers(2, 7))
        m = draw(st.integers(2, 7))
        spec['low'] = [k, m, draw(byte_grid(k * m))]
        spec['step'] = draw(st.sampled_from([1, 5, 20]))
    elif kind == 'noise':
        spec['grid'] = draw(byte_grid(rows * cols))
    elif kind == 'plane':
        spec['gr'] = draw(rounded(-1, 1, 3))
        spec['gc'] = draw(rounded(-1, 1, 3))
    return spec


def build_dem(spec):
    rows, cols = spec['rows'], spec['cols']
    amp = float(spec['amp'])
    rr, cc = np.mgrid[0:rows, 0:cols].astype(float)
    kind = spec['kind']
    if kind == 'hills':
        z = np.zeros((rows, cols))
        for h in spec['hills']:
            dr = rr - h['r'] * rows
            dc = cc - h['c'] * cols
            if h['shape'] == 'ridge_ns':
                d = np.abs(dc)
            elif h['shape'] == 'ridge_ew':
                d = np.abs(dr)
            else:
                d = np.hypot(dr, dc)
            d = d / h['w']
            if h['shape'] == 'bell':
                f = np.exp(-d ** 2)
            elif h['shape'] == 'mesa':
                f = np.clip(2 - d, 0, 1)
            else:
                f = np.clip(1 - d, 0, None)
            z = z + amp * h['h'] * f
    elif kind in ('smooth', 'steps'):
        k, m, text = spec['low']
        z = stretch(unbytes(text, (k, m)) / 255.0, rows, cols) * amp
        if kind == 'steps':
            z = np.floor(z / spec['step']) * spec['step']
    elif kind == 'noise':
        z = unbytes(spec['grid'], (rows, cols)) / 255.0 * amp
    elif kind == 'plane':
        z = (spec['gr'] * rr + spec['gc'] * cc) * amp / 20.0
    else:
        z = np.zeros((rows, cols))
    return z + spec['base']


@st.composite
def class_spec(draw, rows, cols, n_classes):
    """Specification of an array of indices 0 .. n_classes - 1."""
    kind = draw(st.sampled_from(['noise', 'noise', 'patches', 'split',
                                 'uniform', 'speck']))
    spec = {'kind': kind, 'rows': rows, 'cols': cols, 'n': n_classes}
    if kind == 'noise':
        spec['grid'] = draw(byte_grid(rows * cols))
    elif kind == 'patches':
        k = draw(st.integers(1, 5))
        m = draw(st.integers(1, 5))
        spec['low'] = [k, m, draw(byte_grid(k * m))]
    elif kind == 'split':
        spec['at'] = draw(rounded(0, 1, 2))
        spec['axis'] = draw(st.integers(0, 1))
        spec['a'] = draw(st.integers(0, n_classes - 1))
        spec['b'] = draw(st.integers(0, n_classes - 1))
    elif kind == 'speck':
        # next to nothing of a class
        spec['a'] = draw(st.sampled_from([n_classes - 1, n_classes - 1, 0]))
        spec['b'] = draw(st.integers(0, n_classes - 1))
        spec['at'] = draw(st.lists(st.integers(0, rows * cols - 1),
                                   min_size=1, max_size=3))
    else:
        spec['a'] = draw(st.integers(0, n_classes - 1))
    return spec


def build_classes(spec):
    rows, cols, n = spec['rows'], spec['cols'], spec['n']
    if spec['kind'] == 'noise':
        return unbytes(spec['grid'], (rows, cols)).astype(int) % n
    if spec['kind'] == 'patches':
        k, m, text = spec['low']
        low = unbytes(text, (k, m)).astype(int) % n
        r = np.minimum((np.arange(rows) * k) // rows, k - 1)
        c = np.minimum((np.arange(cols) * m) // cols, m - 1)
        return low[np.ix_(r, c)]
    if spec['kind'] == 'split':
        out = np.full((rows, cols), spec['a'])
        size = cols if spec['axis'] else rows
        k = int(spec['at'] * size)
        if spec['axis']:
            out[:, k:] = spec['b']
        else:
            out[k:, :] = spec['b']
        return out
    out = np.full((rows, cols), spec['a'])
    if spec['kind'] == 'speck':
        out.flat[spec['at']] = spec['b']
    return out


TABLE_ROUGHNESS = [2, 1, 0.8, 0.4, 0.2, 0.08, 0.06, 0.04, 0.02, 0.008,
                   0.006, 0.004, 0.002]


@st.composite
def table_spec(draw, min_size=1, max_size=8):
    """Rows [category, roughness length, shielding in per cent]"""
    cats = draw(st.lists(st.integers(1, 700), min_size=min_size,
                         max_size=max_size, unique=True))
    return [[c, draw(st.one_of(st.sampled_from(TABLE_ROUGHNESS),
                               rounded(0.002, 2, 3))),
             draw(st.sampled_from([100, 100, 85, 88, 90, 60, 75, 92, 95]))]
            for c in cats]


def missing_value(dtype):
    """Strategy of a value that declares a cell of this type missing"""
    values = [-9999] * 4 + [9999, 0, -32768]
    if dtype.startswith('float'):
        values += [-3.4028234663852886e38, 'nan']
    return st.sampled_from(values)


def latitudes():
    return st.one_of(rounded(-45, -9, 2), rounded(-75, 75, 2))
