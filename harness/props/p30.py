"""Helpers name the module, file and version of what calls them."""
import json
import os
import subprocess

from hypothesis import strategies as st

import all_multipliers
from harness import env
from harness.core import REPO, require
from utilities import files

ID = 'P30'
QUICK = 30000
THOROUGH = 120000
RULE = ('A case is a chain of calls through modules of generated names and '
        'folders, some behind links, with or without a version, the last of '
        'which asks for its own name or that of one of the others; or (about '
        'one in 100) a program of such modules in a process of its own, that '
        'asks for its configuration file and version and starts a log; or a '
        'function that is timed. Non-trivial: the module asked for is not '
        'the one that asks, or a program.')

NAME = st.one_of(
    st.sampled_from(['baz', 'main', 'a.b', 'my-mod', 'x_y', 'Caf\u00e9',
                     'with space', '.hidden', 'noext', 'py', 'b.py']),
    st.text('abcXYZ019_-', min_size=1, max_size=8))
FOLDER = st.sampled_from(['/foo/bar', '/', '/a.b/c d', '', 'relative',
                          '/foo/../up', '/foo//x', 'scratch', 'link'])
EXTENSIONS = ['.py', '.py', '.py', '.pyw', '', '.x']
PLAIN = st.text('abcdefghij', min_size=1, max_size=6).map(
    lambda t: 'm' + t)


@st.composite
def strategy(draw, tier):
    what = draw(st.sampled_from(['chain'] * 89 + ['timer'] * 10 +
                                ['program']))
    if what == 'timer':
        return {'what': what, 'seconds': draw(st.one_of(
            st.sampled_from([0, 0.999, 59, 59.99, 60, 3599, 3600, 86400,
                             360000]), st.integers(0, 400000),
            st.integers(0, 10 ** 7).map(lambda k: k / 8.0))),
            'args': draw(st.lists(st.integers(0, 9), max_size=3)),
            'result': draw(st.sampled_from(
                ['args', 'args', None, 0, '', [], {}, False, 0.0, 7])),
            'key': draw(st.booleans()), 'raises': draw(
                st.sampled_from([False, False, True]))}
    if what == 'program':
        return {'what': what, 'names': draw(st.lists(
            PLAIN, min_size=1, max_size=4, unique=True)),
            'folders': draw(st.booleans()), 'link': draw(st.booleans()),
            'version': draw(st.sampled_from(['1.0', '', None, '2.1b x'])),
            'extension': draw(st.sampled_from(['.ini', '.cfg', '.log', ''])),
            'prefix': draw(st.sampled_from(['', '', 'my_', '.'])),
            'relative': draw(st.booleans())}
    n = draw(st.integers(1, 6))
    return {'what': what, 'level': draw(st.integers(1, n)),
            'default': draw(st.booleans()), 'chain': [
                {'folder': draw(FOLDER), 'name': draw(NAME),
                 'extension': draw(st.sampled_from(EXTENSIONS)),
                 'function': draw(st.sampled_from(
                     ['f', 'main', '<lambda>', '__init__'])),
                 'version': draw(st.sampled_from(
                     [None, '1', '0.2 alpha', '$Id: x$', '']))}
                for _ in range(n)]}


def check(case, ctx):
    {'chain': check_chain, 'timer': check_timer,
     'program': check_program}[case['what']](case, ctx)
    ctx.label(case['what'])


def split(name):
    """Name and extension, as of a file name"""
    dot = name.rfind('.')
    if dot <= 0 or not name[:dot].strip('.'):
        return name, ''
    return name[:dot], name[dot:]


def check_chain(case, ctx):
    chain = case['chain']
    os.mkdir(ctx.path('real'))
    os.symlink(ctx.path('real'), ctx.path('link'))
    level = 1 if case['default'] else case['level']
    arg = () if case['default'] else (level,)
    names, call = [], None
    for i, m in enumerate(reversed(chain)):
        folder = {'scratch': ctx.path('real'), 'link': ctx.path('link')}.get(
            m['folder'], m['folder'])
        path = os.path.join(folder, m['name'] + m['extension'])
        names.append(path)
        space = {'files': files, 'call': call, 'arg': arg}
        if m['version'] is not None:
            space['__version__'] = m['version']
        name = m['function']
        if i == 0:
            body = ('(files.fl_module_path(*arg), files.fl_module_name(*arg),'
                    ' files.fl_program_version(%d))' % level)
        else:
            body = 'call()'
        if name == '<lambda>':
            source = 'g = lambda: %s' % body
        elif name == '__init__':
            source = 'class C:\n def __init__(self):\n  self.out = ' + body
        else:
            source = 'def %s():\n return %s\ng = %s' % (name, body, name)
        exec(compile(source, path, 'exec'), space)
        if name == '__init__':
            call = Constructed(space['C'])
        else:
            call = space['g']
    # levels are counted in frames, and a constructed one has two
    frames = []
    for i, m in enumerate(reversed(chain)):
        frames.append((names[i], m))
        if m['function'] == '__init__':
            frames.append((None, None))
    path, m = frames[level - 1]
    if path is None:
        ctx.label('not asked')
        return
    got = call()
    (folder, base, extension), module, version = got
    real = os.path.realpath(path)
    want = (os.path.dirname(real),) + split(os.path.basename(real))
    require((folder, base, extension) == want, 'level %d of %s is %s', level,
            [x for x, _ in frames], (folder, base, extension))
    require(module == split(os.path.basename(path))[0], 'level %d of %s is '
            'the module %s', level, [x for x, _ in frames], module)
    require(version == (m['version'] or ''), 'level %d has the version %r, '
            'not %r', level, version, m['version'])
    ctx.nontrivial(level > 1 and len(set(x for x, _ in frames)) > 1)


class Constructed(object):
    def __init__(self, cls):
        self.cls = cls

    def __call__(self):
        return self.cls().out


class Wrong(Exception):
    pass


class Clock(object):
    """Time that passes when it is told to"""
    names = ['time', 'perf_counter', 'monotonic']

    def __init__(self):
        self.now = 1.6e9

    def __enter__(self):
        import time
        self.was = {n: getattr(time, n) for n in self.names}
        for n in self.names:
            setattr(time, n, lambda: self.now)
        return self

    def __exit__(self, *exc):
        import time
        for n, f in self.was.items():
            setattr(time, n, f)
        return False


def check_timer(case, ctx):
    import logging
    record = []

    class Handler(logging.Handler):
        def emit(self, r):
            record.append(r.getMessage())
    clock = Clock()

    def work(*args, **kwargs):
        """documented"""
        clock.now += case['seconds']
        if case['raises']:
            raise Wrong('it')
        return ('done', args, kwargs) if result == 'args' else result
    result = case.get('result', 'args')
    timed = all_multipliers.timer(work)
    require(timed.__name__ == 'work' and timed.__doc__ == 'documented',
            'the name is lost')
    root = logging.getLogger()
    handler, level = Handler(), root.level
    root.addHandler(handler)
    root.setLevel(logging.INFO)
    kwargs = {'key': 1} if case['key'] else {}
    try:
        with clock:
            try:
                got = timed(*case['args'], **kwargs)
            except Wrong:
                got = 'raised'
    finally:
        root.removeHandler(handler)
        root.setLevel(level)
    want = 'raised' if case['raises'] else (
        'done', tuple(case['args']), kwargs) if result == 'args' else result
    require(got == want and type(got) is type(want), 'gives %r instead of %r', got, want)
    if not case['raises']:
        # the time is a multiple of 1/8 s at such times
        s = int(float(1.6e9 + case['seconds']) - 1.6e9)
        text = '%02d:%02d:%02d' % (s // 3600, s // 60 % 60, s % 60)
        require(any('work' in r and text in r for r in record), '%g s are '
                'logged as %s', case['seconds'], record)
    ctx.nontrivial(case['seconds'] >= 60)


PROGRAM = """
import sys, json
sys.path.insert(0, %r)
from utilities import files
%s
def ask():
    files.fl_start_log(%r, 'INFO')
    print('::' + json.dumps([files.fl_config_file(%r, %r),
                             files.fl_program_version(),
                             files.fl_config_file()]))
"""


def check_program(case, ctx):
    """The first module is the program, and the last one asks"""
    names = case['names']
    base = ctx.path('p')
    os.mkdir(base)
    last = len(names) - 1
    search = []
    for i, name in enumerate(names):
        folder = os.path.join(base, 'f%d' % i) if case['folders'] else base
        os.makedirs(folder, exist_ok=True)
        search.append(folder)
        if i == last:
            text = PROGRAM % (REPO, '__version__ = "of the module"'
                              if last else '', ctx.path('p.log'),
                              case['extension'], case['prefix'])
        else:
            text = 'import sys\nsys.path[:0] = %r\nimport %s\n' % (
                [os.path.join(base, 'f%d' % j) for j in range(len(names))] +
                [base], names[i + 1])
            text += 'def ask():\n    %s.ask()\n' % names[i + 1]
        if i == 0:
            if case['version'] is not None:
                text += '__version__ = %r\n' % case['version']
            text += 'if __name__ == "__main__":\n    ask()\n'
        with open(os.path.join(folder, name + '.py'), 'w') as f:
            f.write(text)
    program = os.path.join(search[0], names[0] + '.py')
    shown = program
    if case['link']:
        shown = ctx.path('p', 'linked.py')
        os.symlink(program, shown)
    if case['relative']:
        shown = os.path.relpath(shown, ctx.scratch)
    p = subprocess.run([env.PYTHON, shown], cwd=ctx.scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=''))
    text = p.stdout.decode(errors='replace')
    require(p.returncode == 0 and '::' in text, 'the program ends with %d: '
            '%s', p.returncode, text[-600:])
    config, version, plain = json.loads(text[text.index('::') + 2:])
    real = os.path.realpath(os.path.join(ctx.scratch, shown))
    folder, name = os.path.split(real)
    want = os.path.join(folder, case['prefix'] + split(name)[0] +
                        case['extension'])
    require(config == want, 'the configuration file of %s is %s, not %s',
            shown, config, want)
    require(plain == os.path.join(folder, split(name)[0] + '.ini'),
            'the configuration file of %s is %s', shown, plain)
    want = case['version']
    if want is None:
        want = ''
    require(version == want, 'the version of the program is %r, not %r',
            version, want)
    with open(ctx.path('p.log')) as f:
        log = f.read()
    require('Running %s (pid ' % shown in log and
            'Version %s\n' % version in log, 'the log is %r', log)
    ctx.nontrivial()
