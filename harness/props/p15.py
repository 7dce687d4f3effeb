"""Every tile is handed out once, and every process ends."""
from hypothesis import strategies as st

import all_multipliers
from harness import gen, ranks
from harness.core import require

ID = 'P15'
QUICK = 30000
THOROUGH = 250000
RULE = ('A case is a number of tiles, a number of processes, and the timing: '
        'which process goes on and which message is received whenever there '
        'is a choice, with sends that are buffered or wait for the receiver. '
        'The history of cuts and calculations is compared with what each tile '
        'needs, and the run must end with no message left. Non-trivial: at '
        'least two workers and two tiles, with at least one real choice of '
        'the schedule.')
ASSUMPTIONS = ['processes communicate through the mpi4py interface, here '
               'replaced by a stand-in; messages between two processes keep '
               'their order, as MPI guarantees']


@st.composite
def strategy(draw, tier):
    size = draw(st.one_of(st.integers(1, 4), gen.number(2, 9, 24)))
    tiles = draw(st.one_of(st.integers(0, 6), gen.number(0, 20, 90),
                           st.integers(max(size - 2, 0), size)))
    return {'size': size, 'tiles': tiles,
            'choices': draw(st.lists(st.integers(0, 30), max_size=40)),
            'sync': draw(st.booleans()), 'callback': draw(st.booleans()),
            'result': draw(st.sampled_from([None, None, 0, 'done'])),
            'opened': draw(st.booleans()),
            'twice': draw(st.sampled_from([False, False, True]))}


def check(case, ctx):
    size, n = case['size'], case['tiles']
    tiles = [['e%d.0s%d.0' % (i, i % 3), (i, -1, i + 2, -3),
              (i + 0.5, -1.5, i + 1.5, -2.5)] for i in range(n)]
    history = []
    calls = []

    def rank_of(m):
        return m.comm.rank

    class Recorder(all_multipliers.Multipliers):
        def open_dem(self):
            history.append(('open', rank_of(self), None, None))
            self.dem_ds = 'open'

        def cut_dem(self, tile_info):
            require(self.dem_ds == 'open', 'a tile is cut from a DEM that '
                    'is not open')
            history.append(('cut', rank_of(self), tile_info[0],
                            list(tile_info)))
            return 'dem of ' + tile_info[0]

        def multipliers_calculate(self, temp_tile_dem, tile_info):
            # gives another process the chance to go on
            self.comm._ask('start')
            history.append(('work', rank_of(self), tile_info[0],
                            list(tile_info)))
            require(temp_tile_dem == 'dem of ' + tile_info[0],
                    'tile %s is calculated from the %s', tile_info[0],
                    temp_tile_dem)
            return case['result']

    def body(comm):
        m = Recorder('landcover', 'dem')
        m.comm = comm
        if case['opened'] and comm.rank == 0:
            m.dem_ds = 'open'
        for _ in range(2 if case['twice'] else 1):
            if case['callback']:
                m.parallelise_on_tiles(list(tiles), calls.append)
            else:
                m.parallelise_on_tiles(list(tiles))
            comm.barrier()

    was = {k: getattr(all_multipliers, k, None)
           for k in ('comm', 'MPI', 'output_folder')}
    try:
        def start(comm):
            all_multipliers.comm = comm
            all_multipliers.MPI = ranks.fake_mpi(comm)[1]
            all_multipliers.output_folder = ctx.path('out')
            return body(comm)
        scheduler, _ = ranks.run_threads(size, start, case['choices'],
                                         case['sync'])
    finally:
        for k, v in was.items():
            if v is None:
                delattr(all_multipliers, k)
            else:
                setattr(all_multipliers, k, v)

    times = 2 if case['twice'] else 1
    cuts = [h for h in history if h[0] == 'cut']
    work = [h for h in history if h[0] == 'work']
    names = [t[0] for t in tiles]
    for what, events in (('cut', cuts), ('calculated', work)):
        done = [h[2] for h in events]
        for t in tiles:
            require(done.count(t[0]) == times, 'tile %s of %d is %s %d times '
                    'by %d processes', t[0], n, what, done.count(t[0]), size)
        require(len(done) == n * times, '%d tiles %s for %d', len(done),
                what, n)
        for h in events:
            require(h[3] == tiles[names.index(h[2])],
                    'tile %s is %s with the extents %s', h[2], what, h[3][1:])
    for h in cuts + [h for h in history if h[0] == 'open']:
        require(h[1] == 0, 'process %d of %d does "%s"', h[1], size, h[0])
    for h in work:
        require(size == 1 or h[1] > 0, 'the master calculates a tile')
    order = [h for h in history if h[0] in ('cut', 'work')]
    for name in names:
        kinds = [h[0] for h in order if h[2] == name]
        require(kinds == ['cut', 'work'] * times,
                'tile %s: %s', name, kinds)
    if size == 1:
        require([(h[0], h[2]) for h in order if h[0] == 'work'] ==
                [('work', x) for x in names] * times,
                'a single process does the tiles in the order %s',
                [h[2] for h in work])
    ctx.label('%d processes' % size if size < 4 else '4 or more processes',
              'more workers than tiles' if size - 1 > n else '',
              'synchronous' if case['sync'] else 'buffered',
              'no tile' if n == 0 else '')
    ctx.count('communications', scheduler.steps)
    ctx.count('choices', scheduler.used)
    ctx.nontrivial(size > 2 and n > 1 and scheduler.used > 0)
