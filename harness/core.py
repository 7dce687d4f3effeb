"""Driver shared by all the property checks.

A property module defines

  ID        the property
  RULE      how cases are made and what makes one non-trivial
  strategy(tier)      a Hypothesis strategy of plain JSON cases
  check(case, ctx)    runs the code under test on one case and raises
                      Violation if the property does not hold
  QUICK, THOROUGH     number of cases in all shards together
  EXAMPLES            optional list of fixed cases that are always run

Every random choice is made by Hypothesis from VERIF_SEED.  The driver
shrinks a failing case, stores it as a replay file, and writes the evidence.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHRINK_SECONDS = float(os.environ.get('VERIF_SHRINK_SECONDS', '25'))
# a case takes some seconds at most: one that takes this long does not end
CASE_SECONDS = float(os.environ.get('VERIF_CASE_SECONDS', '200'))
# no case is started after this time, however many there should be
LIMIT_SECONDS = float(os.environ.get('VERIF_LIMIT_SECONDS', '660'))


class Violation(Exception):
    """The property does not hold for this case."""


def fail(message, *args):
    raise Violation(message % args if args else message)


def require(condition, message, *args):
    if not condition:
        fail(message, *args)


class OutOfTime(BaseException):
    """No further case is run."""


class Reject(Exception):
    """This case is not in the domain of the property (kept rare)."""


class Ctx(object):
    """What a check may use and report for one case."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = set()
        self.trivial = True
        self.counts = {}
        self.endless = False

    def label(self, *names):
        self.labels.update(n for n in names if n)

    def nontrivial(self, condition=True):
        if condition:
            self.trivial = False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def path(self, *names):
        return os.path.join(self.scratch, *names)


def jsonable(case):
    return json.loads(json.dumps(case))


def case_hash(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def touches_repo(exc):
    """True if code of the repository is in the traceback of an exception"""
    tb = exc.__traceback__
    repo = os.path.realpath(REPO) + os.sep
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if os.path.realpath(name).startswith(repo):
            return True
        tb = tb.tb_next
    return False


class HarnessError(Exception):
    """An error of a check, found in another process."""


class TooLong(BaseException):
    """A case that does not end."""


def too_long(*args):
    raise TooLong()


def bad_result(exc):
    """
    True if an exception raised by a check itself says that a result of the
    code under test is missing or not of the right kind, as opposed to a
    function that is not there, one with other arguments, or a full disk.
    """
    text = str(exc)
    if isinstance(exc, (ImportError, MemoryError, NotImplementedError)):
        return False
    if isinstance(exc, AttributeError):
        return not text.startswith(('module ', 'type object '))
    if isinstance(exc, TypeError):
        return not any(x in text for x in (
            'positional argument', 'keyword argument', '() takes ',
            '() missing '))
    if isinstance(exc, OSError):
        return isinstance(exc, (FileNotFoundError, NotADirectoryError,
                                IsADirectoryError)) or \
            (exc.errno or 0) < 0
    return isinstance(exc, (KeyError, IndexError, ValueError, RuntimeError,
                            ZeroDivisionError, OverflowError))


def run_case(module, case, scratch_root):
    """
    Run one case. Returns (ctx, None) or (ctx, message of the violation);
    any other exception is an error of the harness.
    """
    from . import env
    scratch = env.new_scratch(scratch_root)
    ctx = Ctx(scratch)
    cwd = os.getcwd()
    before = signal.signal(signal.SIGALRM, too_long)
    try:
        os.chdir(scratch)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            module.check(case, ctx)
            return ctx, None
        except Violation as exc:
            return ctx, str(exc)
        except TooLong:
            ctx.endless = True
            return ctx, 'the code did not end within %g s' % CASE_SECONDS
        except Reject:
            ctx.trivial = True
            ctx.label('rejected')
            return ctx, None
        except (Exception, SystemExit) as exc:
            if touches_repo(exc):
                text = ''.join(traceback.format_exception_only(
                    type(exc), exc)).strip()
                frames = traceback.extract_tb(exc.__traceback__)
                where = [f for f in frames
                         if os.path.realpath(f.filename).startswith(
                             os.path.realpath(REPO) + os.sep)][-1]
                return ctx, 'unexpected exception %s at %s:%s' % (
                    text, os.path.relpath(where.filename, REPO),
                    where.lineno)
            if bad_result(exc):
                where = traceback.extract_tb(exc.__traceback__)[-1]
                return ctx, ('a result is missing or of another kind: %s: '
                             '%s (%s:%s)' % (type(exc).__name__, exc,
                                             where.filename, where.lineno))
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)
        os.chdir(cwd)
        env.remove_scratch(scratch, scratch_root)


def shard(module, tier, seed, index, count, scratch_root, out):
    """Generate and run the cases of one shard, and write what happened."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {'evaluations': 0, 'hashes': [], 'labels': {}, 'counts': {},
             'samples': [], 'failure': None, 'error': None, 'rejected': 0}
    seen = set()
    state = {'best': None, 'first': None, 'endless': False}

    def account(case, ctx, key):
        stats['evaluations'] += 1
        for name in ctx.labels:
            stats['labels'][name] = stats['labels'].get(name, 0) + 1
        for name, n in ctx.counts.items():
            stats['counts'][name] = stats['counts'].get(name, 0) + n
        if 'rejected' in ctx.labels:
            stats['rejected'] += 1
        if not ctx.trivial and key not in seen:
            seen.add(key)
            text = json.dumps(case)
            # not the first, which are as simple as can be
            if len(seen) in (1, 7, 20, 50, 120, 300):
                stats['samples'] = [
                    case if len(text) < 3000 else text[:3000] + '...']

    begin = time.monotonic()

    def body(case):
        case = jsonable(case)
        key = case_hash(case)
        if state['best'] is None and \
                time.monotonic() - begin > LIMIT_SECONDS:
            raise OutOfTime()
        if state['best'] is not None:
            spent = time.monotonic() - state['first']
            if state['endless']:
                if key == state['best'][0]:
                    raise Violation(state['best'][2])
                return
            if spent > SHRINK_SECONDS and key != state['best'][0]:
                return
        ctx, message = run_case(module, case, scratch_root)
        account(case, ctx, key)
        if message is not None:
            if state['first'] is None:
                state['first'] = time.monotonic()
            state['best'] = (key, case, message)
            state['endless'] = ctx.endless
            raise Violation(message)

    try:
        if index == 0:
            for case in getattr(module, 'EXAMPLES', []):
                case = jsonable(case)
                ctx, message = run_case(module, case, scratch_root)
                account(case, ctx, case_hash(case))
                if message is not None:
                    state['best'] = ('example', case, message)
                    raise Violation(message)
        sub = int(hashlib.sha1(('%s/%s/%s' % (module.ID, seed, index))
                               .encode()).hexdigest()[:12], 16)
        test = given(module.strategy(tier))(body)
        test = hypothesis.seed(sub)(test)
        test = settings(
            max_examples=count, database=None, deadline=None,
            derandomize=False, report_multiple_bugs=False,
            print_blob=False, verbosity=hypothesis.Verbosity.quiet,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck))(test)
        test()
    except OutOfTime:
        stats['labels']['shard stopped for want of time'] = 1
    except BaseException as exc:
        if state['best'] is not None and not isinstance(
                exc, KeyboardInterrupt):
            stats['failure'] = {'case': state['best'][1],
                                'message': state['best'][2]}
        else:
            stats['error'] = ''.join(traceback.format_exception(
                type(exc), exc, exc.__traceback__))
    stats['hashes'] = sorted(seen)
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(stats, f)
    os.rename(tmp, out)


def load_known(prop):
    """Entries of the known findings file for a property."""
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == prop]


def execute(module, tier, seed, shards=None, cases=None):
    """Run a check. Returns the exit code."""
    from . import env
    start = time.time()
    prop = module.ID
    total = cases or (module.QUICK if tier == 'quick' else module.THOROUGH)
    shards = shards or getattr(module, 'SHARDS', 8)
    shards = max(1, min(shards, total))
    root = env.scratch_root()
    children = {}
    merged = {'evaluations': 0, 'labels': {}, 'counts': {}, 'samples': [],
              'rejected': 0}
    hashes = set()
    failure = error = None
    try:
        if hasattr(module, 'prepare'):
            module.prepare()
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(shards):
            count = total // shards + (1 if i < total % shards else 0)
            out = os.path.join(root, 'shard-%d.json' % i)
            sub = os.path.join(root, 's%d' % i)
            os.mkdir(sub)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    devnull = os.open(os.path.join(sub, 'output'),
                                      os.O_CREAT | os.O_WRONLY | os.O_APPEND)
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                    shard(module, tier, seed, i, count, sub, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            children[pid] = (i, out)
        while children:
            pid, status = os.wait()
            if pid not in children:
                continue
            i, out = children.pop(pid)
            if not os.path.exists(out):
                log = os.path.join(root, 's%d' % i, 'output')
                tail = ''
                if os.path.exists(log):
                    with open(log, errors='replace') as f:
                        tail = f.read()[-2000:]
                error = error or ('shard %d ended with status %s\n%s'
                                  % (i, status, tail))
                continue
            with open(out) as f:
                stats = json.load(f)
            merged['evaluations'] += stats['evaluations']
            merged['rejected'] += stats['rejected']
            hashes.update(stats['hashes'])
            for kind in ('labels', 'counts'):
                for name, n in stats[kind].items():
                    merged[kind][name] = merged[kind].get(name, 0) + n
            if len(merged['samples']) < 4:
                merged['samples'].extend(stats['samples'][:1])
            error = error or stats['error']
            if stats['failure'] is not None:
                failure = stats['failure']
                break
    finally:
        for pid in list(children):
            try:
                os.killpg(pid, 9)
            except OSError:
                pass
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        env.remove_scratch(root, root)

    known = load_known(prop)
    for entry in known:
        if entry.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (prop, entry['what']))

    wall = time.time() - start
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': merged['evaluations'],
            'distinct_nontrivial': len(hashes),
            'rule': module.RULE,
            'samples': merged['samples'],
            'labels': dict(sorted(merged['labels'].items())),
            'counts': dict(sorted(merged['counts'].items())),
            'rejected': merged['rejected'],
            'shards': shards,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 0 if failure is None else 1,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if failure is not None:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = os.path.join(VERIF, 'replays', '%s-%s.json' % (
            prop, case_hash(failure['case'])))
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'case': failure['case'],
                       'message': failure['message'], 'seed': seed}, f,
                      indent=1)
        print('violation: %s' % failure['message'][:2000])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if error is not None:
        print('harness error in the check of %s:\n%s' % (prop, error))
        return 2
    if len(hashes) == 0:
        print('no non-trivial case was generated for %s' % prop)
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, merged['evaluations'], len(hashes), wall))
    return 0


def replay(module, path):
    """Run the case of a replay file. Returns the exit code."""
    from . import env
    with open(path) as f:
        data = json.load(f)
    root = env.scratch_root()
    try:
        ctx, message = run_case(module, data['case'], root)
    finally:
        env.remove_scratch(root, root)
    if message is None:
        print('%s held on %s' % (module.ID, path))
        return 0
    print('violation: %s' % message)
    print('VIOLATION property=%s replay=%s' % (module.ID, path))
    return 1
