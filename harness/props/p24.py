"""Grid interpolation is exact for bilinear functions."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require
from utilities import blrb

ID = 'P24'
QUICK = 12000
THOROUGH = 60000
RULE = ('A case is a block (shape from 1 x 1, origin) in a larger grid, a '
        'depth of bisection and a bilinear or arbitrary function of the '
        'indices, whose calls are recorded. Non-trivial: more than one cell '
        'and a function that is not constant.')

SENTINEL = -12345.0


@st.composite
def strategy(draw, tier):
    shape = [draw(st.one_of(st.integers(1, 6), gen.number(1, 70, 900)))
             for _ in range(2)]
    origin = [draw(st.one_of(st.just(0), gen.number(0, 12, 300)))
              for _ in range(2)]
    return {'shape': shape, 'origin': origin,
            'pad': [draw(st.integers(0, 4)) for _ in range(2)],
            'depth': draw(st.integers(0, 3 if tier == 'quick' else 5)),
            'coefficients': [draw(gen.rounded(-9, 9, 2)) for _ in range(4)],
            'bilinear': draw(st.booleans()),
            'dtype': draw(st.sampled_from(['float64', 'float64', 'float32'])),
            'block': draw(st.booleans())}


def check(case, ctx):
    (m, n), (i0, j0) = case['shape'], case['origin']
    a, b, c, d = case['coefficients']
    calls = []

    def function(i, j):
        calls.append((i, j))
        if case['bilinear']:
            return a + b * i + c * j + d * i * j
        return a + ((i * 7919 + j * 104729 + int(b * 100)) % 1009) / 10.0

    shape = (i0 + m + case['pad'][0], j0 + n + case['pad'][1])
    grid = np.full(shape, SENTINEL, dtype=case['dtype'])
    how = {'origin': (i0, j0), 'shape': (m, n)}
    if case['depth'] or not case['block']:
        how['depth'] = case['depth']
    blrb.interpolate_grid(eval_func=function, grid=grid, **how)
    require(grid.shape == shape, 'grid of shape %s', grid.shape)
    inside = np.zeros(shape, bool)
    inside[i0:i0 + m, j0:j0 + n] = True
    require((grid[~inside] == SENTINEL).all(), 'cell %s outside of the block '
            'is written', np.argwhere((grid != SENTINEL) & ~inside)
            [:1].tolist())
    require((grid[inside] != SENTINEL).all(), 'cell %s of the block is not '
            'written', np.argwhere((grid == SENTINEL) & inside)[:1].tolist())
    for i, j in calls:
        require(i == int(i) and j == int(j) and inside.shape[0] > i >= 0 and
                inside.shape[1] > j >= 0 and inside[int(i), int(j)],
                'the function is called at %s for a block of %s x %s at %s',
                (i, j), m, n, (i0, j0))
    tol = 1e-9 if case['dtype'] == 'float64' else 1e-6

    def near(u, v):
        return abs(u - v) <= tol * (1 + abs(a) + abs(b * i1) + abs(c * j1) +
                                    abs(d * i1 * j1) + 100)
    i1, j1 = i0 + m - 1, j0 + n - 1
    for i, j in {(i0, j0), (i0, j1), (i1, j0), (i1, j1)}:
        require(near(grid[i, j], function(i, j)), 'corner %s has %r, not %r',
                (i, j), grid[i, j], function(i, j))
    # the corners of the parts are right as well
    parts = [((i0, j0), (m, n))]
    for _ in range(case['depth']):
        parts = [((ul[0], ul[1]), (lr[0] - ul[0] + 1, lr[1] - ul[1] + 1))
                 for o, s in parts
                 for ul, _, _, lr in blrb.subdivide(o, s).values()]
    for (top, left), (h, w) in parts:
        for i in (top, top + h - 1):
            for j in (left, left + w - 1):
                require(near(grid[i, j], function(i, j)), 'corner %s of a '
                        'part of %s x %s has %r, not %r, at depth %d', (i, j),
                        h, w, grid[i, j], function(i, j), case['depth'])
    if case['bilinear']:
        ii, jj = np.mgrid[i0:i0 + m, j0:j0 + n]
        want = a + b * ii + c * jj + d * ii * jj
        err = np.abs(grid[i0:i0 + m, j0:j0 + n] - want)
        k = np.unravel_index(err.argmax(), err.shape)
        require(near(err.max(), 0), 'a bilinear function is %r off at %s of '
                'a block of %s x %s', err.max(), k, m, n)
    # sub-blocks
    blocks = blrb.subdivide((i0, j0), (m, n))
    require(len(blocks) == 4, '%d sub-blocks', len(blocks))
    cover = np.zeros(shape, int)
    for name, corners in blocks.items():
        ul, ur, ll, lr = [tuple(v) for v in corners]
        require(ur == (ul[0], lr[1]) and ll == (lr[0], ul[1]) and
                all(int(v) == v for v in ul + lr),
                'sub-block %s has corners %s', name, corners)
        require(i0 <= ul[0] <= lr[0] <= i1 and j0 <= ul[1] <= lr[1] <= j1,
                'sub-block %s from %s to %s of a block of %s x %s at %s',
                name, ul, lr, m, n, (i0, j0))
        cover[int(ul[0]):int(lr[0]) + 1, int(ul[1]):int(lr[1]) + 1] += 1
    require((cover[inside] > 0).all(), 'sub-blocks of %s x %s leave out %s',
            m, n, np.argwhere((cover == 0) & inside)[:1].tolist())
    require(blocks['UL'][3] == blocks['LR'][0] and
            blocks['UL'][3] == blocks['UR'][2] and
            blocks['UL'][3] == blocks['LL'][1],
            'sub-blocks do not meet: %s', blocks)
    if case['block']:
        out = np.asarray(blrb.interpolate_block((i0, j0), (m, n), function))
        require(out.shape == (m, n), 'block of shape %s', out.shape)
        require(near(out[0, 0], function(i0, j0)) and
                near(out[-1, -1], function(i1, j1)), 'corners of a block')
        require([int(v) for v in blrb.indices((i0, j0), (m, n))] ==
                [i0, i1, j0, j1], 'indices %s', blrb.indices((i0, j0), (m, n)))
    ctx.label('depth %d' % case['depth'],
              'one row or column' if 1 in (m, n) else '',
              'bilinear' if case['bilinear'] else 'arbitrary')
    ctx.nontrivial(m * n > 1 and not (case['bilinear'] and
                                      b == c == d == 0))
