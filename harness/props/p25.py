"""Tables, file statistics and logs."""
import contextlib
import hashlib
import io
import logging
import os
import sys
import time

import numpy as np
from hypothesis import strategies as st

from harness import env, gen
from harness.core import fail, require
from utilities import files

ID = 'P25'
QUICK = 30000
THOROUGH = 150000
RULE = ('A case is a table saved and loaded with any delimiter, format and '
        'header; a file of any bytes whose statistics are asked with any '
        'chunk size, or that does not exist; or a log of messages of any '
        'levels. Non-trivial: the table has at least two numbers, the file '
        'is longer than a chunk, or some messages are above and some below '
        'the level of the log.')

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
FORMATS = [None, None, '%.18e', '%.6f', '%.3f', '%d', '%g']
NUMBERS = st.one_of(gen.floats(-1e6, 1e6), gen.floats(-1e-6, 1e-6),
                    st.integers(-9999, 9999).map(float),
                    st.sampled_from([float('nan'), 0.1, 1e300, 5e-324]))
HEADERS = ['', 'a,b,c', 'one line of text', 'two\nlines', '% sign', '1,2,3']
PLACES = ['f.csv', 'new/f.csv', 'new/er/f.csv', 'with space/f.x', './f.dat']


@st.composite
def table_case(draw):
    rows, cols = draw(gen.number(1, 6, 40)), draw(st.integers(0, 5))
    n = rows * max(cols, 1)
    return {'what': 'table', 'rows': rows, 'cols': cols,
            'values': [draw(NUMBERS) for _ in range(n)],
            'header': draw(st.sampled_from(HEADERS)),
            'delimiter': draw(st.sampled_from([None, ',', ';', '\t', '|'])),
            'fmt': draw(st.sampled_from(FORMATS)),
            'place': draw(st.sampled_from(PLACES)),
            'absolute': draw(st.booleans()), 'over': draw(st.booleans()),
            'listed': draw(st.booleans())}


@st.composite
def load_case(draw):
    rows, cols = draw(gen.number(2, 6, 40)), draw(st.integers(2, 5))
    return {'what': 'load', 'rows': rows, 'cols': cols,
            'values': [draw(NUMBERS) for _ in range(rows * cols)],
            'delimiter': draw(st.sampled_from([',', ';', '\t'])),
            'comment': draw(st.sampled_from(['%', '#', '!'])),
            'skip': draw(st.integers(0, 3)),
            'after': draw(st.lists(st.integers(0, rows), max_size=2))}


@st.composite
def stat_case(draw):
    size = draw(st.one_of(st.integers(0, 40), st.integers(0, 5000),
                          st.sampled_from([65535, 65536, 65537, 131072])))
    return {'what': 'stat', 'size': size, 'seed': draw(st.integers(0, 255)),
            'tail': draw(st.binary(max_size=20).map(bytes.hex)),
            'chunk': draw(st.one_of(
                st.none(), st.integers(1, 64),
                st.sampled_from([size, size + 1, max(size - 1, 1), 2 ** 20])))
            or None,
            'time': draw(st.one_of(st.integers(0, 2 ** 31 - 1),
                                   st.integers(2 ** 31, 2 ** 32 + 10 ** 9))),
            'part': draw(st.sampled_from([0, 0, 1, 499999999, 500000000,
                                          999000000])),
            'zone': draw(st.sampled_from(
                [None, 'UTC', 'AEST-10', 'AEST-10AEDT,M10.1.0,M4.1.0/3',
                 'EST5EDT', 'X-05:45'])),
            # bytes that are not there, so that the file is large
            'hole': draw(st.sampled_from([0] * 30 + [
                2 ** 31 - 1, 2 ** 31, 2 ** 32, 5 * 10 ** 9])),
            'place': draw(st.sampled_from(PLACES)),
            'absolute': draw(st.booleans()),
            'exists': draw(st.sampled_from([True] * 4 + [False]))}


@st.composite
def log_case(draw):
    message = st.fixed_dictionaries({
        'level': st.sampled_from(LEVELS), 'from': st.sampled_from(
            ['', 'terrain', 'utilities.nctools']),
        'text': st.sampled_from(['first', 'tile e1.0s2.0', '100% done',
                                 'a b c'])})
    return {'what': 'log', 'level': draw(st.sampled_from(LEVELS)),
            'messages': draw(st.lists(message, max_size=8)),
            'place': draw(st.sampled_from(
                ['run.log', 'log/run.log', 'deep/er/run.log', 'run',
                 'blocked/run.log'])),
            'absolute': draw(st.booleans()), 'verbose': draw(st.booleans()),
            'terminal': draw(st.booleans()),
            'date': draw(st.booleans()), 'new': draw(st.booleans()),
            'old': draw(st.booleans()), 'fatal': draw(st.booleans()),
            # another process makes the folder at the same time
            'race': draw(st.sampled_from([False] * 3 + [True])),
            # a log that was started earlier in the same process
            'earlier': draw(st.sampled_from([None] * 3 + [
                {'place': p, 'level': l, 'verbose': v}
                for p in ('other.log', 'elsewhere/other.log')
                for l in ('DEBUG', 'ERROR') for v in (False, True)] + [
                    'a message']))}


def strategy(tier):
    return st.one_of(table_case(), load_case(), stat_case(), log_case())


def check(case, ctx):
    {'table': check_table, 'load': check_load, 'stat': check_stat,
     'log': check_log}[case['what']](case, ctx)
    ctx.label(case['what'])


def place(case, ctx):
    if case['absolute']:
        return os.path.join(ctx.scratch, case['place'])
    return case['place']


def check_table(case, ctx):
    values = np.array(case['values'])
    if case['cols']:
        values = values.reshape(case['rows'], case['cols'])
    path = place(case, ctx)
    if case['over'] and os.path.dirname(case['place']) in ('', '.'):
        with open(path, 'w') as f:
            f.write('9,9,9\n' * 20)
    fmt = case['fmt']
    if fmt == '%d':
        values = np.where(np.abs(values) < 1e6, np.floor(values), 0.0)
    if fmt not in (None, '%.18e'):
        values = np.where(np.abs(values) < 1e7, values, 1.0)
    kwargs = {'header': case['header']}
    if fmt:
        kwargs['fmt'] = fmt
    if case['delimiter']:
        kwargs['delimiter'] = case['delimiter']
    given = values.tolist() if case['listed'] else values
    files.fl_save_file(path, given, **kwargs)
    tol = {None: 0, '%.18e': 0, '%d': 0, '%.6f': 6e-7, '%.3f': 6e-4,
           '%g': None}[fmt]
    kwargs = {'delimiter': case['delimiter']} if case['delimiter'] else {}
    got = files.fl_load_file(path, **kwargs)
    want = np.squeeze(values)
    require(got.shape == want.shape, 'a table of shape %s reads as %s',
            values.shape, got.shape)
    if tol is None:
        ok = np.abs(got - want) <= 6e-6 * np.abs(want)
    else:
        ok = np.abs(got - want) <= tol
    ok |= np.isnan(got) & np.isnan(want)
    require(ok.all(), '%r reads as %r', want, got)
    with open(path) as f:
        text = f.read()
    comments = [line[1:].strip() for line in text.splitlines()
                if line.startswith('%')]
    head = [x.strip() for x in case['header'].splitlines()]
    require(comments == head, 'header %r is saved as %r', case['header'],
            comments)
    ctx.label('header' if head else '', 'missing folder' if
              os.path.dirname(case['place']) not in ('', '.') else '')
    ctx.nontrivial(values.size > 1)


def check_load(case, ctx):
    values = np.array(case['values']).reshape(case['rows'], case['cols'])
    lines = ['skip this, or that'] * case['skip']
    for i, row in enumerate(values):
        lines += [case['comment'] + ' a comment'] * case['after'].count(i)
        lines.append(case['delimiter'].join(repr(float(x)) for x in row) + (
            ' ' + case['comment'] + ' note' if i % 2 else ''))
    path = ctx.path('t.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    got = files.fl_load_file(path, comments=case['comment'],
                             delimiter=case['delimiter'],
                             skiprows=case['skip'])
    require(got.shape == values.shape and np.array_equal(
        got, values, equal_nan=True), '%r reads as %r', values, got)
    ctx.nontrivial()


def check_stat(case, ctx):
    path = place(case, ctx)
    if not case['exists']:
        for f in (files.fl_get_stat, files.fl_size, files.fl_mod_date):
            try:
                f(path)
            except IOError:
                pass
            else:
                fail('%s accepts a file that does not exist', f.__name__)
        ctx.label('no such file')
        return
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    body = (np.arange(case['size']) * 31 + case['seed']) % 256
    body = body.astype('uint8').tobytes() + bytes.fromhex(case['tail'])
    with open(path, 'wb') as f:
        f.write(body)
    if case['hole']:
        check_large(case, path, len(body))
    os.utime(path, ns=((case['time'] + 1000) * 10 ** 9,
                       case['time'] * 10 ** 9 + case['part']))
    zone = os.environ.get('TZ')
    if case['zone']:
        os.environ['TZ'] = case['zone']
        time.tzset()
    try:
        check_stat_of(case, ctx, path, body)
    finally:
        if case['zone']:
            if zone is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = zone
            time.tzset()


def check_large(case, path, size):
    with open(path, 'r+b') as f:
        f.truncate(size + case['hole'])
    got = files.fl_size(path)
    require(got == size + case['hole'], 'size %d of %d bytes', got,
            size + case['hole'])
    with open(path, 'r+b') as f:
        f.truncate(size)


def check_stat_of(case, ctx, path, body):
    args = [path] + ([case['chunk']] if case['chunk'] else [])
    folder, name, md5, date = files.fl_get_stat(*args)
    require((folder, name) == os.path.split(path), 'folder %r and name %r of '
            '%r', folder, name, path)
    require(md5 == hashlib.md5(body).hexdigest(), 'digest %s of %d bytes in '
            'chunks of %s', md5, len(body), case['chunk'])
    require(date == time.ctime(case['time']), 'date %s of %s', date,
            time.ctime(case['time']))
    require(files.fl_size(path) == len(body), 'size %d of %d bytes',
            files.fl_size(path), len(body))
    require(files.fl_mod_date(path) == time.strftime(
        '%Y-%m-%d %H:%M:%S', time.localtime(case['time'])), 'date %s',
        files.fl_mod_date(path))
    short = time.strftime('%d.%m.%y %H', time.localtime(case['time']))
    require(files.fl_mod_date(path, '%d.%m.%y %H') == short, 'short date')
    with open(path, 'rb') as f:
        require(f.read() == body, 'the file is changed')
    ctx.nontrivial(len(body) > (case['chunk'] or 2 ** 16))


class Screen(io.StringIO):
    """A standard output that is a terminal, or not"""
    terminal = True

    def isatty(self):
        return self.terminal


def check_log(case, ctx):
    root = logging.getLogger()
    saved = root.handlers[:], root.level
    root.handlers[:] = []
    out = sys.stdout
    sys.stdout = Screen()
    sys.stdout.terminal = case['terminal']
    try:
        log_body(case, ctx)
    finally:
        sys.stdout = out
        for h in root.handlers:
            h.close()
        root.handlers[:] = saved[0]
        root.setLevel(saved[1])


def log_body(case, ctx):
    path = place(case, ctx)
    if case['place'].startswith('blocked'):
        with open(ctx.path('blocked'), 'w') as f:
            f.write('a file')
    elif case['old'] and not case['date']:
        if os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write('an old line\n')
    cwd = os.getcwd()
    earlier = case['earlier']
    if earlier == 'a message':
        # as logging.info() does when nothing is set up
        logging.basicConfig(stream=io.StringIO())
    elif earlier:
        files.fl_start_log(earlier['place'], earlier['level'],
                           earlier['verbose'])
        logging.critical('of another time')
        for h in logging.getLogger().handlers:
            h.flush()
        with open(earlier['place']) as f:
            before = f.read()
        sys.stdout.seek(0)
        sys.stdout.truncate()
    started = time.time()
    with env.raced(os.path.dirname(os.path.realpath(path))) \
            if case.get('race') else contextlib.nullcontext():
        logger = files.fl_start_log(
            path, case['level'], case['verbose'], datestamp=case['date'],
            newlog=case['new'])
    require(logger is logging.getLogger(), 'returned %r', logger)
    sent = []
    for i, m in enumerate(case['messages']):
        text = '%s #%d' % (m['text'], i)
        logging.getLogger(m['from']).log(getattr(logging, m['level']),
                                         '%s', text)
        sent.append((m['level'], text))
    if case['fatal']:
        lines = ['Traceback:', '  File "x"', 'ValueError: y']
        try:
            files.fl_log_fatal_error(lines)
        except SystemExit:
            pass
        else:
            fail('goes on after a fatal error')
        sent += [('CRITICAL', line.strip()) for line in lines]
    for h in logging.getLogger().handlers:
        h.flush()
    folder = os.path.dirname(case['place'])
    if folder == 'blocked':
        where = cwd
    else:
        where = os.path.join(ctx.scratch, folder)
    name = os.path.basename(case['place'])
    names = [n for n in os.listdir(where)
             if n.startswith(os.path.splitext(name)[0])]
    require(len(names) == 1, 'log files %s', names)
    if not case['date']:
        require(names == [name], 'log file %s instead of %s', names, name)
    else:
        base, extension = os.path.splitext(name)
        dates = {time.strftime('%Y%m%d%H%M', time.localtime(t))
                 for t in (started, time.time())}
        require(names[0].rstrip('.') in
                {'%s.%s%s' % (base, d, extension) for d in dates},
                'log file %s for %s', names, name)
    if isinstance(earlier, dict):
        with open(earlier['place']) as f:
            require(f.read() == before, 'messages go to an earlier log')
    with open(os.path.join(where, names[0])) as f:
        lines = f.read().splitlines()
    if not case['date'] and case['old'] and folder != 'blocked':
        kept = lines[:1] == ['an old line']
        require(kept != case['new'], 'the old log is %s',
                'kept' if kept else 'lost')
        if kept:
            lines = lines[1:]
    got = [line.split(': ', 1)[1] if ': ' in line else line
           for line in lines]
    ours = ('Started log file', 'Running ', 'Version ')
    kept = [g for g in got if not g.startswith(ours)]
    threshold = LEVELS.index(case['level'])
    want = [t for level, t in sent if LEVELS.index(level) >= threshold]
    require(kept == want, 'a log of level %s holds %s for messages %s',
            case['level'], kept, sent)
    # the messages are on the screen also, in a verbose run
    shown = [line.split(': ', 1)[1] if ': ' in line else line
             for line in sys.stdout.getvalue().splitlines()]
    shown = [g for g in shown if not g.startswith(ours)]
    if not case['verbose']:
        require(not shown, 'a run that is not verbose shows %s', shown)
    elif case['terminal']:
        require(shown == want, 'a verbose log of level %s shows %s for '
                'messages %s', case['level'], shown, sent)
        ctx.label('verbose')
    ctx.label('second log' if earlier else '')
    ctx.nontrivial(0 < len(want) < len(sent))
