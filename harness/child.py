"""Code under test in a process of its own, as an unprivileged user."""
import json
import os
import signal
import sys
import traceback

from .core import HarnessError, Violation, bad_result, fail, touches_repo

NOBODY = 65534


def open_up(scratch):
    """Let an unprivileged user pass through the folders above"""
    os.chmod(scratch, 0o755)
    top = os.path.dirname(scratch)
    while 'wmverif-' in top:
        os.chmod(top, 0o755)
        top = os.path.dirname(top)


def give(area):
    """Make everything in a scratch folder belong to that user"""
    if os.getuid() != 0:
        return
    if 'wmverif-' not in os.path.realpath(area):
        raise RuntimeError('not a scratch folder: %s' % area)
    os.chown(area, NOBODY, NOBODY)
    for folder, folders, files in os.walk(area):
        for name in folders + files:
            os.chown(os.path.join(folder, name), NOBODY, NOBODY,
                     follow_symlinks=False)


def drop():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def isolated(function, *args, unprivileged=False, cwd=None):
    """
    Result of a function in a process of its own. A violation there is one
    here, and so is an exception from the code under test.
    """
    here, there = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(here)
            try:
                if unprivileged:
                    drop()
                if cwd is not None:
                    os.chdir(cwd)
                out = {'result': function(*args)}
            except Violation as exc:
                out = {'violation': str(exc)}
            except (Exception, SystemExit) as exc:
                ours = not touches_repo(exc) and not bad_result(exc)
                out = {'error' if ours else 'violation':
                       traceback.format_exc()[-800:]}
            with os.fdopen(there, 'w') as f:
                f.write(json.dumps(out))
        finally:
            sys.stdout.flush()
            os._exit(0)
    os.close(there)
    try:
        with os.fdopen(here) as f:
            text = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if not text:
        fail('the process ends at once, with status %s', status)
    out = json.loads(text)
    if 'violation' in out:
        fail('%s', out['violation'])
    if 'error' in out:
        raise HarnessError(out['error'])
    return out['result']
