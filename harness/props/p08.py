"""Hill-shape multiplier of an elevation profile equals its definition."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import require
from topographic.multiplier_calc import multiplier_calc

ID = 'P08'
QUICK = 30000
THOROUGH = 300000
RULE = ('A case is a line of 1 to 200 elevations (random walks, hills, steps, '
        'plateaus, extremes, thresholds of height and slope) and a spacing. '
        'The multiplier is compared with the definition, written as a maximum '
        'over the climbs, between bounds that differ only where a condition '
        'is met to within rounding; and again after raising the whole line. '
        'Non-trivial: some cell differs from 1.')
ASSUMPTIONS = ['elevations are rounded down to whole metres, as documented']
TOL = 1e-9


@st.composite
def piece(draw):
    """A stretch of elevations, relative to where it starts."""
    kind = draw(st.sampled_from(['climb', 'climb', 'fall', 'flat', 'walk',
                                 'hill', 'mesa']))
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 40),
                       gen.number(1, 40, 500)))
    if kind == 'climb' or kind == 'fall':
        h = draw(st.one_of(st.integers(1, 30), st.integers(1, 900),
                           st.sampled_from([9, 10, 11]),
                           gen.number(1, 900, 9000)))
        step = np.linspace(0, h, n + 1)[1:]
        step = step if kind == 'climb' else -step
    elif kind == 'flat':
        step = np.zeros(n)
    elif kind == 'walk':
        b = draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n))
        step = np.cumsum(b)
    else:
        h = draw(st.one_of(st.integers(1, 60), st.integers(1, 900),
                           gen.number(1, 900, 9000)))
        m = draw(st.integers(1, 25))
        top = [h] * draw(st.integers(0, 3)) if kind == 'mesa' else []
        end = h * draw(st.sampled_from([0, 0, 0, 0.1, -0.1, 0.4]))
        step = np.concatenate([np.linspace(0, h, n + 1)[1:], top,
                               np.linspace(h, end, m + 1)[1:]])
    return [float(np.round(v, 3)) for v in step]


@st.composite
def line(draw, limit):
    kind = draw(st.sampled_from(['pieces', 'pieces', 'pieces', 'noise',
                                 'small']))
    if kind == 'noise':
        b = draw(st.binary(min_size=1, max_size=60))
        amp = draw(st.sampled_from([0.03, 0.1, 0.5, 1, 4, 10]))
        return [round(v * amp, 3) for v in b]
    if kind == 'small':
        return [float(v) for v in draw(st.lists(st.integers(0, 40),
                                                min_size=1, max_size=8))]
    at = draw(st.one_of(st.just(0.0), gen.rounded(-100, 2000, 1)))
    out = [at]
    for steps in draw(st.lists(piece(), min_size=1, max_size=6)):
        here = out[-1]
        out.extend(round(here + v, 3) for v in steps)
    return out[:limit]


@st.composite
def strategy(draw, tier):
    return {'line': draw(line(1500)),
            'spacing': draw(st.one_of(
                st.sampled_from([25.0, 30.0, 25 * 2 ** 0.5, 90.0, 5.0, 250.0,
                                 20.0, 27.3]),
                gen.rounded(1, 500, 2))),
            'raise': draw(st.integers(-300, 5000))}


def check(case, ctx):
    y = np.array(case['line'], dtype=float)
    s = case['spacing']
    got = np.asarray(multiplier_calc(y.copy(), s))
    require(got.size == y.size, '%d values for %d cells', got.size, y.size)
    got = got.reshape(-1).astype(float)
    require(np.isfinite(got).all() and got.min() >= 1 - TOL and
            got.max() <= 1.71 + TOL, 'values from %r to %r', got.min(),
            got.max())
    lo, hi = ref.line_multiplier(y, s)
    bad = (got < lo - TOL) | (got > hi + TOL)
    if bad.any():
        k = int(np.argmax(bad))
        require(False, '%d of %d cells differ, first %d: got %r, expected %r '
                'to %r', bad.sum(), y.size, k, got[k], lo[k], hi[k])
    up = np.asarray(multiplier_calc(y + case['raise'], s)).reshape(-1)
    # adding to decimal elevations may carry them over a whole number
    same = (np.floor(y + case['raise']) == np.floor(y) + case['raise']).all()
    require(not same or np.abs(up - got).max() < TOL,
            'raising the line by %d m changes the multiplier by %r',
            case['raise'], np.abs(up - got).max())
    found = ref.climbs(np.floor(y))
    ctx.label('no climb' if not found else 'one climb' if len(found) == 1
              else 'several climbs',
              'crest at the end' if found and found[-1][1] == y.size - 1
              else '', 'at limit 1.71' if got.max() > 1.7099 else '',
              'undecided' if (hi - lo).max() > TOL else '')
    ctx.nontrivial(got.max() > 1 + TOL)
