"""
tools/plants.py [ID ...]: run the check of its property against each planted
bug of seeded/ in a scratch copy of /repo. Not part of any check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    seeded = os.path.join(ROOT, 'seeded')
    for name in sys.argv[1:] or sorted(os.listdir(seeded)):
        folder = os.path.join(seeded, name)
        with open(os.path.join(folder, 'meta.json')) as f:
            pid = json.load(f)['property']
        scratch = tempfile.mkdtemp(prefix='wmseed-')
        copy = os.path.join(scratch, 'repo')
        try:
            shutil.copytree('/repo', copy, symlinks=True)
            apply = subprocess.run(['git', 'apply', os.path.join(
                folder, 'patch.diff')], cwd=copy)
            env = dict(os.environ, VERIF_REPO=copy, VERIF_TIER='quick',
                       VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                       VERIF_SHRINK_SECONDS='5')
            demo = subprocess.run(['bash', os.path.join(folder, 'demo.sh')],
                                  cwd=copy, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL)
            run = subprocess.run(
                [sys.executable, os.path.join(ROOT, 'harness',
                                              'run_check.py'), pid],
                cwd=ROOT, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True)
            caught = run.returncode == 1 and 'VIOLATION property=' in \
                run.stdout
            why = [x for x in run.stdout.splitlines()
                   if x.startswith('violation')]
            print(name, pid, 'applies' if apply.returncode == 0 else
                  'DOES NOT APPLY', 'demo %d' % demo.returncode,
                  'caught' if caught else 'MISSED', (why or [''])[0][:150],
                  flush=True)
        finally:
            shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
