"""Logged calls, singletons and the single process stand-in."""
import sys
import threading
import time
import types

from hypothesis import strategies as st

from harness import ranks
from harness.core import require
from utilities import parallel
from utilities.meta import Singleton, create_arg_string, print_call

ID = 'P26'
QUICK = 36000
THOROUGH = 150000
RULE = ('A case is a call of a function with any signature and arguments, '
        'with and without logging; a singleton class constructed by several '
        'threads that start together; or a function restricted to the master '
        'on one of several processes, or without MPI. Non-trivial: the call '
        'has an argument, several threads construct, or there is a result.')


class Wrong(Exception):
    pass


class Stop(BaseException):
    pass


ERRORS = {c.__name__: c for c in (
    Wrong, Stop, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit,
    AttributeError, KeyError, AssertionError, ImportError, OSError,
    RecursionError, UnicodeError, MemoryError)}
RAISES = st.sampled_from(['Wrong'] * 6 + sorted(ERRORS))


def f_none():
    """no argument"""
    return 'nothing'


def f_one(a):
    return ('one', a)


def f_defaults(a, b=2, c='see'):
    """with defaults"""
    return ('defaults', a, b, c)


def f_args(a, *rest):
    return ('args', a, rest)


def f_kwargs(a=1, **named):
    return ('kwargs', a, sorted(named.items()))


def f_all(a, b=3, *rest, **named):
    """everything"""
    return ('all', a, b, rest, sorted(named.items()))


def f_only(a, *, key='k'):
    return ('only', a, key)


def f_raise(a=0, kind='Wrong'):
    raise ERRORS.get(str(kind), Wrong)(a)


def f_lazy(a=1, *rest):
    """a generator"""
    for x in (a,) + rest:
        yield x


FUNCTIONS = {f.__name__: f for f in (f_none, f_one, f_defaults, f_args,
                                     f_kwargs, f_all, f_only, f_raise,
                                     f_lazy)}
POOL = ['a', 'b', 'c', 'key', 'other', 'func', 'logger', 'cls', 'args',
        'kwargs', 'name', 'x1', 'res']
VALUES = st.one_of(st.none(), st.booleans(), st.integers(-99, 99),
                   st.sampled_from(['', 'text', 'a=b', '%s', '{0}', 'a\nb']),
                   st.lists(st.integers(0, 3), max_size=2))


@st.composite
def made(draw):
    """A function of any signature, and a call that may fit it"""
    names = draw(st.permutations(POOL))
    n, k = draw(st.integers(0, 4)), draw(st.integers(0, 3))
    spec = {'plain': names[:n], 'only': names[n:n + k],
            'defaults': draw(st.integers(0, n)),
            'only_defaults': draw(st.integers(0, k)),
            'rest': names[n + k] if draw(st.booleans()) else None,
            'named': names[n + k + 1] if draw(st.booleans()) else None,
            'method': draw(st.booleans())}
    at = draw(st.integers(0, n))
    extra = draw(st.integers(0, 2)) if spec['rest'] and at == n else 0
    args = [draw(VALUES) for _ in range(at + extra)]
    kwargs = {}
    for i, name in enumerate(spec['plain']):
        if i >= at and (i < n - spec['defaults'] or draw(st.booleans())):
            kwargs[name] = draw(VALUES)
    for i, name in enumerate(spec['only']):
        if i < k - spec['only_defaults'] or draw(st.booleans()):
            kwargs[name] = draw(VALUES)
    if spec['named'] and draw(st.booleans()):
        kwargs[names[-1]] = draw(VALUES)
    return spec, args, kwargs


def make(spec):
    n = len(spec['plain'])
    parts = ['self'] if spec['method'] else []
    for i, name in enumerate(spec['plain']):
        parts.append(name + ('=%d' % i if i >= n - spec['defaults'] else ''))
    if spec['rest']:
        parts.append('*' + spec['rest'])
    elif spec['only']:
        parts.append('*')
    k = len(spec['only'])
    for i, name in enumerate(spec['only']):
        parts.append(name + ('="d%d"' % i if i >= k - spec['only_defaults']
                             else ''))
    if spec['named']:
        parts.append('**' + spec['named'])
    names = spec['plain'] + spec['only'] + [
        x for x in (spec['rest'], spec['named']) if x]
    space = {'__name__': 'made'}
    exec('def f_made(%s):\n "documented"\n return [%s]\n' % (
        ', '.join(parts), ', '.join(names)), space)
    return space['f_made']


@st.composite
def strategy(draw, tier):
    what = draw(st.sampled_from(['call'] * 10 + ['singleton', 'master',
                                                 'master', 'dummy']))
    case = {'what': what}
    if what == 'call':
        case.update(
            function=draw(st.sampled_from(sorted(FUNCTIONS))),
            args=draw(st.lists(VALUES, max_size=4)),
            kwargs=draw(st.dictionaries(
                st.sampled_from(['a', 'b', 'c', 'key', 'other']), VALUES,
                max_size=2)),
            logger=draw(st.sampled_from([True, True, True, False])),
            times=draw(st.integers(1, 2)))
        if draw(st.booleans()):
            case['function'] = 'made'
            case['spec'], case['args'], case['kwargs'] = draw(made())
        if case['function'] == 'f_raise' and draw(st.integers(0, 3)):
            case.update(args=draw(st.lists(VALUES, max_size=1)),
                        kwargs={'kind': draw(RAISES)})
    elif what == 'singleton':
        case.update(threads=draw(st.integers(1, 8)),
                    delay=draw(st.sampled_from([0, 0.0005, 0.002])),
                    classes=draw(st.integers(1, 2)),
                    subclass=draw(st.booleans()),
                    false=draw(st.booleans()), fails=draw(st.booleans()),
                    again=draw(st.integers(0, 2)))
    elif what == 'master':
        size = draw(st.integers(1, 5))
        case.update(size=size, rank=draw(st.integers(0, size - 1)),
                    value=draw(VALUES), raises=draw(st.one_of(st.none(), RAISES)),
                    early=draw(st.booleans()))
    else:
        case.update(value=draw(VALUES), raises=draw(st.one_of(st.none(), RAISES)))
    return case


def outcome(f, args, kwargs):
    try:
        result = f(*args, **kwargs)
        if isinstance(result, types.GeneratorType):
            result = 'generator of', list(result)
        return 'returns', result
    except TypeError:
        return 'raises', ('TypeError',)
    except tuple(ERRORS.values()) as exc:
        return 'raises', (type(exc).__name__, exc.args)


def check(case, ctx):
    {'call': check_call, 'singleton': check_singleton,
     'master': check_master, 'dummy': check_dummy}[case['what']](case, ctx)
    ctx.label(case['what'])


def bound(f, args, kwargs):
    import inspect
    b = inspect.signature(f).bind(*args, **kwargs)
    b.apply_defaults()
    return b.arguments


def check_call(case, ctx):
    args, kwargs = case['args'], case['kwargs']
    f = make(case['spec']) if 'spec' in case else FUNCTIONS[case['function']]
    log = []
    wrapped = print_call(log.append if case['logger'] else None)(f)
    if 'spec' in case and case['spec']['method']:
        class Owner(object):
            method = f
            logged = wrapped

            def __repr__(self):
                return 'the owner'
        owner = Owner()
        f, wrapped = owner.method, owner.logged
    want = outcome(f, args, kwargs)
    require(wrapped.__name__ == f.__name__ and wrapped.__doc__ == f.__doc__
            and wrapped.__module__ == f.__module__,
            'the name or documentation is lost')
    for _ in range(case['times']):
        got = outcome(wrapped, args, kwargs)
        require(got == want, '%s(*%s, **%s) %s %r with logging, and %s %r '
                'without', f.__name__, args, kwargs, got[0], got[1], want[0],
                want[1])
    if not case['logger']:
        require(log == [], 'logged %s', log)
    elif want == ('raises', ('TypeError',)):
        ctx.label('wrong arguments')
    else:
        text = ''.join(map(str, log))
        require(text.count(f.__name__ + '(') == case['times'],
                'logged %r', text)
        for name, value in bound(f, args, kwargs).items():
            require('%s=%s' % (name, value) in text,
                    'argument %s=%s is not logged: %r', name, value, text)
            require('%s=%s' % (name, value) in
                    create_arg_string(f, *args, **kwargs),
                    'argument %s is not in the text', name)
        after = [x for x in log if 'SUCCESS' in str(x)]
        require(len(after) == (case['times'] if want[0] == 'returns' else 0),
                'logged %d successes of a function that %s', len(after),
                want[0])
    ctx.label(want[0], 'logged' if case['logger'] else '')
    ctx.nontrivial(bool(args or kwargs))


def check_singleton(case, ctx):
    built = []

    failing = [case.get('fails', False)]

    def make(name, bases=(object,)):
        def init(self, *args, **kwargs):
            if failing[0]:
                raise Wrong(name)
            built.append(type(self).__name__)
            if case['delay']:
                time.sleep(case['delay'])
            self.ready = True
        body = {'__init__': init}
        if case.get('false'):
            # as an empty container
            body['__len__'] = lambda self: 0
        return Singleton(name, bases, body)

    classes = [make('Class%d' % i) for i in range(case['classes'])]
    if case['subclass']:
        classes.append(make('Child', (classes[0],)))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for cls in classes:
            if failing[0]:
                require(outcome(cls, (), {}) == ('raises', (
                    'Wrong', (cls.__name__,))), 'an error is not passed on')
        failing[0] = False
        for cls in classes:
            start = threading.Barrier(case['threads'])
            got, errors = [], []

            def work(k):
                try:
                    start.wait()
                    one = cls(k) if k % 2 else cls()
                    got.append((one, one.ready))
                except Exception as exc:
                    errors.append(exc)
            threads = [threading.Thread(target=work, args=(k,))
                       for k in range(case['threads'])]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            if errors:
                raise errors[0]
            first = got[0][0]
            require(type(first) is cls, '%s gives a %s', cls.__name__,
                    type(first).__name__)
            require(all(x is first for x, _ in got),
                    '%d threads get different instances', case['threads'])
            for _ in range(case['again']):
                require(cls() is first, 'a later call gives another instance')
            require(built.count(cls.__name__) == 1, '%s is constructed %d '
                    'times by %d threads', cls.__name__,
                    built.count(cls.__name__), case['threads'])
    finally:
        sys.setswitchinterval(interval)
    ctx.nontrivial(case['threads'] > 1)


def restricted(case, log):
    def function(a, b=1):
        """documented"""
        log.append((a, b))
        if case['raises']:
            raise ERRORS[case['raises']](a)
        return ('done', a, b)
    return function


def check_master(case, ctx):
    """With MPI, of any size and rank"""
    log = []
    function = restricted(case, log)
    comm = ranks.Comm(case['size'], None, case['rank'])
    package, MPI = ranks.fake_mpi(comm)
    was = {k: sys.modules.get(k) for k in ('mpi4py', 'mpi4py.MPI')}
    sys.modules['mpi4py'] = package
    sys.modules['mpi4py.MPI'] = MPI
    try:
        if case['early']:
            wrapped = parallel.disable_on_workers(function)
        got = parallel.attempt_parallel()
        require(got is MPI, 'MPI is not used although it is there')
        if not case['early']:
            wrapped = parallel.disable_on_workers(function)
        result = outcome(wrapped, (case['value'],), {'b': 7})
    finally:
        for k, v in was.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    compare(case, wrapped, log, result, case['rank'] == 0)
    ctx.label('worker' if case['rank'] else 'master')
    ctx.nontrivial()


def compare(case, wrapped, log, result, runs):
    require(wrapped.__name__ == 'function' and
            wrapped.__doc__ == 'documented', 'the name is lost')
    if not runs:
        require(log == [] and result == ('returns', None),
                'a worker runs the function: %s', log)
        return
    require(log == [(case['value'], 7)], 'calls %s', log)
    want = ('raises', (case['raises'], (case['value'],))) if case['raises'] else \
        ('returns', ('done', case['value'], 7))
    require(result == want, '%s instead of %s', result, want)


def check_dummy(case, ctx):
    """Without MPI"""
    was = {k: sys.modules.get(k) for k in ('mpi4py', 'mpi4py.MPI')}
    sys.modules['mpi4py'] = None
    try:
        MPI = parallel.attempt_parallel()
    finally:
        for k, v in was.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    comm = MPI.COMM_WORLD
    require((comm.size, comm.rank, comm.Get_size(), comm.Get_rank()) ==
            (1, 0, 1, 0), 'size %s, rank %s', comm.size, comm.rank)
    value = case['value']
    require(comm.scatter([value], root=0) is value and
            comm.scatter([value]) is value, 'scatter of [%r]', value)
    got = comm.gather(value, root=0)
    require(len(got) == 1 and got[0] is value, 'gather of %r: %r', value, got)
    require(comm.barrier() is None, 'barrier')
    MPI.Init()
    MPI.Finalize()
    log = []
    wrapped = parallel.disable_on_workers(restricted(case, log))
    result = outcome(wrapped, (value,), {'b': 7})
    compare(case, wrapped, log, result, True)
    ctx.nontrivial()
