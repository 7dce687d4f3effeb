"""Output folders are made afresh, by the master only."""
import json
import os
import stat
import types

from hypothesis import strategies as st

import all_multipliers
from harness import child, env
from harness.core import require
from utilities import parallel

ID = 'P16'
QUICK = 6000
THOROUGH = 50000
RULE = ('A case is the path of the output folder, the files, folders and '
        'links that are there and around it, and the process that makes it: '
        'the only one, the master, or a worker, once or twice. It is run by '
        'an unprivileged user in a scratch folder, and everything in the '
        'folder and around it is compared. Non-trivial: something is there '
        'before, or a worker does nothing.')
ASSUMPTIONS = ['the output folder itself is not a link']

NAMES = ['a', 'b.txt', 'terrain', 'shielding', 'topographic', 'M3', 'M3_max',
         'e1.0s2.0.nc', 'wind-multipliers.vrt', 'x y', '-rf', '*', '.hidden']
WANTED = ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']
PATHS = ['out', 'out/', './out', 'deep/er/out', 'other/../out', 'out put',
         'o.u.t', 'deep/out//']


def entries(depth):
    leaf = st.one_of(
        st.fixed_dictionaries({'file': st.sampled_from(['', 'x', 'abc'])}),
        st.fixed_dictionaries({'link': st.sampled_from(
            ['keep', 'keep/file', 'nowhere', 'keep/folder', '..', '.'])}),
        st.just({'folder': {}}))
    if depth == 0:
        return leaf
    return st.one_of(leaf, st.fixed_dictionaries({
        'folder': st.dictionaries(st.sampled_from(NAMES), entries(depth - 1),
                                  max_size=3),
        # a folder from which its owner may not remove anything
        'shut': st.sampled_from([False] * 7 + [True])}))


@st.composite
def strategy(draw, tier):
    return {
        'path': draw(st.sampled_from(PATHS)),
        'absolute': draw(st.booleans()),
        'before': draw(st.one_of(st.none(), st.dictionaries(
            st.sampled_from(NAMES), entries(2), max_size=6))),
        'around': draw(st.dictionaries(
            st.sampled_from(['out2', 'outer', 'terrain', 'M3', 'ou',
                             'deep2']), entries(1), max_size=3)),
        'who': draw(st.sampled_from(['alone', 'alone', 'master', 'worker'])),
        'workers': draw(st.integers(1, 9)),
        'rank': draw(st.integers(1, 9)),
        'twice': draw(st.booleans())}


def build(folder, tree, keep):
    os.makedirs(folder, exist_ok=True)
    for name, what in tree.items():
        path = os.path.join(folder, name)
        if os.path.lexists(path):
            continue
        if 'file' in what:
            with open(path, 'w') as f:
                f.write(what['file'])
        elif 'link' in what:
            target = what['link']
            if target.startswith('keep'):
                target = keep + target[4:]
            os.symlink(target, path)
        else:
            build(path, what['folder'], keep)
            if what.get('shut'):
                os.chmod(path, 0o555)


def stuck(tree):
    """Whether there is something that cannot be removed"""
    return any(what['folder'] and what.get('shut') or stuck(what['folder'])
               for what in (tree or {}).values() if 'folder' in what)


def snapshot(root, but):
    """Everything below root, without what is below one folder"""
    out = {}
    but = os.path.realpath(but)
    for folder, folders, files in os.walk(root):
        if os.path.realpath(folder) == but:
            folders[:] = []
            continue
        for name in folders + files:
            path = os.path.join(folder, name)
            if os.path.abspath(path) == but:
                continue
            mode = os.lstat(path).st_mode
            if stat.S_ISLNK(mode):
                out[path] = 'link ' + os.readlink(path)
            elif stat.S_ISDIR(mode):
                out[path] = 'folder'
            else:
                with open(path) as f:
                    out[path] = 'file ' + f.read()
    return out


def content(folder):
    out = {}
    if not os.path.lexists(folder):
        return None
    for base, folders, files in os.walk(folder):
        for name in folders + files:
            path = os.path.join(base, name)
            kind = 'link' if os.path.islink(path) else (
                'folder' if os.path.isdir(path) else 'file')
            out[os.path.relpath(path, folder)] = kind
    return out


def check(case, ctx):
    """Runs the case in a process of an unprivileged user."""
    area = ctx.path('area')
    os.mkdir(area)
    child.open_up(ctx.scratch)
    child.give(area)
    out = child.isolated(inside, case, area, unprivileged=True, cwd=area)
    ctx.label(case['who'], *out['labels'])
    ctx.nontrivial(out['nontrivial'])


def inside(case, area):
    keep = os.path.join(area, 'keep')
    build(keep, {'file': {'file': 'kept'}, 'folder': {'folder': {
        'file': {'file': 'also kept'}}}}, keep)
    build(os.path.join(area, 'other'), {}, keep)
    target = os.path.normpath(os.path.join(area, case['path']))
    build(area, case['around'], keep)
    given = os.path.join(area, case['path']) if case['absolute'] \
        else case['path']
    if case['before'] is not None:
        build(target, case['before'], keep)
    workers = case.get('workers', 2)
    size, rank = {'alone': (1, 0), 'master': (workers + 1, 0),
                  'worker': (workers + 1, 1 + case.get('rank', 2) % workers)
                  }[case['who']]
    comm = types.SimpleNamespace(size=size, rank=rank,
                                 Get_size=lambda: size,
                                 Get_rank=lambda: rank)
    parallel.MPI = types.SimpleNamespace(COMM_WORLD=comm)
    before = snapshot(area, target)
    inner = content(target)
    failed = False
    with env.Guard(area) as guard:
        for _ in range(2 if case['twice'] else 1):
            try:
                all_multipliers.do_output_directory_creation(given)
            except OSError:
                # nothing says so but an error
                failed = stuck(case['before'])
                if not failed:
                    raise
    require(not guard.escaped, 'deletes %s', guard.escaped)
    after = snapshot(area, target)
    parents = {}
    if case['who'] != 'worker':
        p = os.path.dirname(target)
        while len(p) > len(area):
            parents[p] = 'folder'
            p = os.path.dirname(p)
    for path in sorted(set(before) | set(after)):
        was, now = before.get(path), after.get(path)
        if was is None and parents.get(path) == now:
            continue
        require(was == now, '%s, outside the output folder, was %s and is %s',
                os.path.relpath(path, area), was, now)
    got = content(target)
    if case['who'] == 'worker':
        require(got == inner, 'a worker changes the output folder')
    elif not failed:
        require(got == {n: 'folder' for n in WANTED},
                'the output folder holds %s', got)
    text = json.dumps(case['before'])
    return {'labels': ['fresh' if case['before'] is None else
                       'files there', 'cannot be removed' if failed else '',
                       'links' if '"link"' in text else ''],
            'nontrivial': bool(case['before']) or case['who'] == 'worker'}
