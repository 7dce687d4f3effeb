"""The process is as before when a step has ended."""
import decimal
import gc
import locale
import logging
import os
import random
import resource
import shutil
import signal
import socket
import sys
import threading
import time
import warnings

import numpy as np
import pandas
from hypothesis import strategies as st
from osgeo import gdal, ogr, osr

from harness import child, env, gen, geo, pipeline
from harness.core import require
from harness.props import p32

ID = 'P33'
QUICK = 500
THOROUGH = 4000
RULE = ('A case is a history of steps of the calculation, the conversion and '
        'the pre-processing in one process, some of which fail because an '
        'input is not there or damaged, or an output cannot be written. '
        'After each step the open files, threads, child processes, working '
        'folder, environment, file mode mask, settings of numpy, GDAL, '
        'warnings, logging and random numbers, and the folder of temporary '
        'files are as before it. Non-trivial: a step fails, or steps are of '
        'different kinds.')
ASSUMPTIONS = ['files opened and warnings filtered by the first use of a '
               'step, which loads modules, are not an effect of it']

PANDAS = ['display.max_columns', 'display.precision', 'display.max_rows',
          'io.excel.xlsx.reader']
LIMITS = [resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_AS,
          resource.RLIMIT_STACK, resource.RLIMIT_CORE]
STEPS = sorted(set(p32.STEPS) - {'run'})


@st.composite
def strategy(draw, tier):
    steps = draw(st.lists(st.sampled_from(STEPS), min_size=1, max_size=3,
                          unique=True))
    history = draw(st.lists(st.tuples(
        st.integers(0, len(steps) - 1),
        st.sampled_from(['', '', '', 'no input', 'spoilt input',
                         'no folder', 'a folder'])),
        min_size=2, max_size=6))
    small = st.integers(2, 12)
    return {'umask': draw(st.sampled_from([0o22, 0o22, 0o27, 0o77, 0])),
            # settings a program may have made
            'numpy': draw(st.sampled_from(['warn', 'ignore', 'print'])),
            'pam': draw(st.sampled_from(['NO', 'NO', 'YES', None])),
            'level': draw(st.sampled_from([10, 20, 30, 50])),
            'warnings': draw(st.sampled_from(['default', 'ignore',
                                              'always'])),
            'zone': draw(st.sampled_from([None, 'AEST-10'])),
            'steps': steps, 'history': [list(x) for x in history],
            'rows': draw(st.one_of(small, small, st.integers(30, 60))),
            'cols': draw(small), 'seed': draw(st.integers(0, 10 ** 6)),
            'x0': draw(gen.rounded(110, 150, 2)),
            'y0': draw(gen.rounded(-38, -12, 2)),
            'tiles': draw(st.integers(1, 2)), 'dtype': 'float32',
            'size': draw(st.sampled_from([0.0003, 0.001, 0.005]))}


def descriptors():
    found = {}
    for name in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + name)
        except OSError:
            continue
        if not target.endswith('/fd'):
            found[name] = target
    return sorted(found.values())


def state():
    gc.collect()
    root = logging.getLogger()
    with open('/proc/self/task/%d/children' % os.getpid()) as f:
        children = f.read().split()
    umask = os.umask(0)
    os.umask(umask)
    return {
        'open files': descriptors(),
        'threads': sorted(t.name for t in threading.enumerate()),
        'child processes': children,
        'working folder': os.getcwd(),
        'environment': sorted(os.environ.items()),
        'file mode mask': umask,
        'settings of numpy': [sorted(np.geterr().items()),
                              sorted(map(str, np.get_printoptions().items()))],
        'settings of GDAL': [
            gdal.GetUseExceptions(), ogr.GetUseExceptions(),
            osr.GetUseExceptions(), gdal.GetCacheMax(),
            gdal.GetConfigOption('GDAL_PAM_ENABLED'),
            gdal.GetConfigOption('GDAL_NUM_THREADS'),
            gdal.GetConfigOption('CPL_DEBUG')],
        'warnings': [str(f) for f in warnings.filters],
        'logging': [root.level, root.disabled, logging.root.manager.disable,
                    [repr(h) for h in root.handlers]],
        'random numbers': [repr(np.random.get_state()),
                           repr(random.getstate())],
        'arguments': [repr(sys.argv), repr(sys.path)],
        'standard streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        'signals': repr([signal.getsignal(s) for s in (1, 2, 10, 13, 14, 15,
                                                       17)] +
                        [signal.getitimer(signal.ITIMER_REAL)[0] > 0]),
        'locale': [locale.setlocale(locale.LC_ALL),
                   repr(decimal.getcontext())],
        'settings of GDAL, all': sorted(
            (gdal.GetConfigOptions() or {}).items()),
        'settings of pandas': [repr(pandas.get_option(name)) for name in
                               PANDAS],
        'hooks': [sys.excepthook is sys.__excepthook__, repr(sys.gettrace()),
                  repr(sys.getprofile()), gc.isenabled(),
                  repr(warnings.showwarning), id(open)],
        'limits': [resource.getrlimit(kind) for kind in LIMITS] + [
            os.nice(0), sorted(os.sched_getaffinity(0)),
            socket.getdefaulttimeout()],
        'temporary files': sorted(os.listdir(os.environ['TMPDIR'])),
        'time zone': [os.environ.get('TZ'), time.tzname],
        'recursion and switching': [sys.getrecursionlimit(),
                                    sys.getswitchinterval()],
    }


class Work(p32.Work):
    """Steps of different kinds, each with folders of its own"""

    def __init__(self, case, ctx, step, number):
        case = dict(case, step=step)
        p32.Work.__init__(self, case, _Place(ctx, 'w%d' % number))


class _Place(object):
    def __init__(self, ctx, name):
        self.root = ctx.path(name)
        os.mkdir(self.root)

    def path(self, name):
        return os.path.join(self.root, name)


def fresh(work):
    if os.path.isdir(work.out):
        shutil.rmtree(work.out)
    elif os.path.exists(work.out):
        os.remove(work.out)
    work.make_folders()


def trouble(work, how):
    """What makes a step fail, and how to undo it"""
    step = work.case['step']
    out = work.out
    if how in ('no input', 'spoilt input'):
        # the land cover and the elevations, and what was made of them
        paths = [os.path.join(work.source, n)
                 for n in sorted(os.listdir(work.source))
                 if n.endswith(('.img', '.shp'))]
        paths += [os.path.join(out, n) for n in ('t.img', 't_dem.img')]
        paths = [p for p in paths if os.path.exists(p)]
        if step == 'convert':
            folder = os.path.join(out, 'terrain')
            paths = [os.path.join(folder, n) for n in os.listdir(folder)]
        for p in paths:
            os.rename(p, p + '.away')
            if how == 'spoilt input':
                with open(p + '.away', 'rb') as f:
                    body = f.read()
                with open(p, 'wb') as f:
                    f.write(body[:len(body) // 2])

        def undo():
            for p in paths:
                if os.path.exists(p):
                    os.remove(p)
                os.rename(p + '.away', p)
        return undo
    if how == 'no folder':
        os.rename(out, out + '.away')
        with open(out, 'w') as f:
            f.write('a file')

        def undo():
            os.remove(out)
            os.rename(out + '.away', out)
        return undo
    names = work.outputs()
    path = os.path.join(out, names[len(names) // 2])
    if os.path.exists(path):
        os.remove(path)
    os.makedirs(os.path.join(path, 'sub'))
    return lambda: shutil.rmtree(path)


def follow(works, case):
    """Run in a child: what was changed by which step, or None"""
    logging.raiseExceptions = False
    import pre_process                                      # noqa: F401
    history = case['history']
    logging.basicConfig()
    logging.getLogger().setLevel(case['level'])
    os.umask(case['umask'])
    np.seterr(divide=case['numpy'], over=case['numpy'])
    np.set_printoptions(precision=3 + case['seed'] % 5)
    gdal.SetConfigOption('GDAL_PAM_ENABLED', case['pam'])
    warnings.simplefilter(case['warnings'])
    if case['zone']:
        os.environ['TZ'] = case['zone']
    null = open(os.devnull, 'w')
    os.dup2(null.fileno(), 1)
    os.dup2(null.fileno(), 2)
    np.random.seed(case['seed'])
    random.seed(case['seed'])
    done = failed = 0
    # each step once, as some is loaded then
    history = [[i, ''] for i in range(len(works))] + history
    for k, (i, how) in enumerate(history):
        work = works[i]
        first = k < len(works)
        fresh(work)
        undo = trouble(work, how) if how else None
        before = state()
        error = None
        try:
            work.act()
            done += 1
        except Exception as exc:
            error = repr(exc)[:200]
            failed += 1
        after = state()
        if undo:
            undo()
        for what in before:
            if first and what == 'warnings':
                continue
            if first and what == 'open files':
                # those of modules loaded by the step are not an effect
                near = os.path.realpath(os.path.dirname(case['area']))
                for s in (before, after):
                    s[what] = [x for x in s[what] if x.startswith(near)]
            if before[what] != after[what]:
                return {'step': work.case['step'], 'number': k, 'what': what,
                        'how': how, 'error': error,
                        'before': str(before[what])[:300],
                        'after': str(after[what])[:300]}
        if not how and error:
            return {'step': work.case['step'], 'number': k, 'what': 'success',
                    'how': how, 'error': error, 'before': '', 'after': ''}
    return {'done': done, 'failed': failed}


def check(case, ctx):
    works = [Work(case, ctx, step, i)
             for i, step in enumerate(case['steps'])]
    temporary = ctx.path('tmp')
    case = dict(case, area=temporary)
    os.mkdir(temporary)
    child.open_up(ctx.scratch)
    for work in works:
        child.give(os.path.dirname(work.area))
    child.give(temporary)

    def inside():
        os.environ['TMPDIR'] = temporary
        os.environ['HOME'] = temporary
        with env.Guard(ctx.scratch) as guard:
            result = follow(works, case)
        result['escaped'] = guard.escaped
        return result
    got = child.isolated(inside, unprivileged=True, cwd=works[0].area)
    require(not got['escaped'], 'deletes %s', got['escaped'])
    if 'what' in got:
        require(False, 'step %d, %s (%s, %s), changes %s: %s becomes %s',
                got['number'], got['step'], got['how'] or 'sound',
                got['error'] or 'ends well', got['what'], got['before'],
                got['after'])
    ctx.label(*case['steps'])
    ctx.label('%d failed' % min(got['failed'], 3))
    ctx.nontrivial(got['failed'] > 0 or len(case['steps']) > 1)


prepare = pipeline.prepare
