"""The options in force are those of the files selected."""
import configparser as standard
import locale
import os

from hypothesis import strategies as st

import all_multipliers
import shielding.shield_mult
import terrain.terrain_mult
import topographic.topo_mult
import utilities.nctools
from harness import gen
from harness.core import require
from utilities.config import configparser as config

ID = 'P19'
QUICK = 24000
THOROUGH = 300000
RULE = ('A case is a history of writing, editing, deleting and selecting '
        'configuration files and reading options, compared with a dictionary '
        'that is updated with the contents of each file when it is selected. '
        'Non-trivial: at least two selections, of which one changes an option '
        'set by an earlier one.')
ASSUMPTIONS = ['the configuration starts without options; a file that does '
               'not exist sets none, or is refused']

SECTIONS = ['inputValues', 'Output', 'Logging', 'Preprocessing', 'Other']
OPTIONS = ['root', 'upwind_length', 'terrain_data', 'dem_data', 'LogFile',
           'output_dir', 'Verbose', 'x']
# what the files of this system can hold
WIDE = [t for t in ['caf\u00e9', '/donn\u00e9es/\u00e9t\u00e9', '\u65e5\u672c']
        if t == t.encode(locale.getpreferredencoding(False), 'replace').decode(
            locale.getpreferredencoding(False))]
VALUES = st.one_of(
    st.sampled_from(['', '/a/b', 'a b', '0.01', '1e-3', '-7', 'True', 'False',
                     'yes', 'no', 'on', 'off', '1', '0', '%(root)s', '50%',
                     'a#b', 'a ; b', 'a # b', 'a  # b', 'a  ; b',
                     'a\t#b', 'x=y', 'x: y', '"q"', '[z]',
                     '${root}', 'C:\\data\\t', 'INFO'] + WIDE),
    gen.rounded(-1000, 1000, 4).map(repr), st.integers(-99999, 99999).map(str))


def contents(sections, options):
    return st.dictionaries(
        st.sampled_from(sections), st.dictionaries(
            st.sampled_from(options), VALUES, min_size=1,
            max_size=min(4, len(options))),
        min_size=1, max_size=min(4, len(sections)))


CONTENTS = [contents(SECTIONS, OPTIONS), contents(SECTIONS[:2], OPTIONS[:4]),
            contents(SECTIONS[:1], OPTIONS[:2])]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 3))
    content = draw(st.sampled_from(CONTENTS))
    steps = [{'op': 'write', 'file': i, 'content': draw(content),
              'select': draw(st.booleans())}
             for i in range(n) if draw(st.sampled_from([1] * 9 + [0]))]
    k = draw(st.sampled_from([4, 3, 2, 5, 6, 8, 1, 10] if tier == 'quick'
                             else [6, 4, 10, 15, 20, 2, 30]))
    for _ in range(k):
        op = draw(st.sampled_from(['write', 'write', 'select', 'select',
                                   'select', 'read', 'delete', 'move']))
        step = {'op': op, 'file': draw(st.integers(0, n - 1))}
        if op == 'write':
            step['content'] = draw(content)
            step['select'] = draw(st.sampled_from([True, True, False]))
        elif op == 'select':
            step['how'] = draw(st.sampled_from(['absolute', 'relative',
                                                'dotted']))
        steps.append(step)
    return {'steps': steps}


def readers():
    out = [config]
    for module in (all_multipliers, terrain.terrain_mult,
                   shielding.shield_mult, topographic.topo_mult,
                   utilities.nctools):
        c = getattr(module, 'config', None)
        if isinstance(c, standard.RawConfigParser):
            out.append(c)
    return out


def select(path):
    # through whichever module
    config.set_config_file(path)


def write(path, content):
    with open(path, 'w') as f:
        for section, options in content.items():
            f.write('[%s]\n' % section)
            for key, value in options.items():
                f.write('%s = %s\n' % (key, value))
            f.write('\n')


def verify(model, when):
    for c in readers():
        for section in set(model) | set(c.sections()):
            if section not in model:
                require(not c.options(section),
                        '%s: section %s has options %s', when, section,
                        c.options(section))
                continue
            require(c.has_section(section), '%s: no section %s', when,
                    section)
            require(sorted(c.options(section)) == sorted(model[section]),
                    '%s: section %s has options %s instead of %s', when,
                    section, sorted(c.options(section)),
                    sorted(model[section]))
            for key, value in model[section].items():
                got = c.get(section, key)
                require(got == value, '%s: option %s of %s is %r instead of '
                        '%r', when, key, section, got, value)
                typed(c, section, key, value, when)


def typed(c, section, key, value, when):
    low = value.lower()
    if low in ('true', 'yes', 'on', '1', 'false', 'no', 'off', '0'):
        got = c.getboolean(section, key)
        require(got is (low in ('true', 'yes', 'on', '1')),
                '%s: %r reads as boolean %r', when, value, got)
    try:
        number = float(value)
    except ValueError:
        return
    require(c.getfloat(section, key) == number, '%s: %r reads as number %r',
            when, value, c.getfloat(section, key))


def check(case, ctx):
    for section in list(config.sections()):
        config.remove_section(section)
    model, disk, changed, selections = {}, {}, 0, 0
    for number, step in enumerate(case['steps']):
        k = step['file']
        path = ctx.path('c%d.cfg' % k)
        op = step['op']
        if op == 'write':
            write(path, step['content'])
            disk[k] = step['content']
        elif op == 'move':
            # to another folder, from where relative names are others
            os.makedirs(ctx.path('d%d' % k, 'e'), exist_ok=True)
            os.chdir(ctx.path(*['.', 'd%d' % k, 'e'][:number % 3 + 1]))
        elif op == 'delete' and k in disk:
            os.remove(path)
            del disk[k]
        if op == 'select' or step.get('select'):
            how = step.get('how', 'absolute')
            near = os.path.relpath(path)
            given = {'absolute': path, 'relative': near,
                     'dotted': './' + near}[how]
            if k not in disk:
                try:
                    select(given)
                except (OSError, standard.Error):
                    pass
                ctx.label('missing file')
            else:
                select(given)
                selections += 1
                for section, options in disk[k].items():
                    have = model.setdefault(section, {})
                    for key, value in options.items():
                        key = key.lower()
                        if key in have and have[key] != value:
                            changed += 1
                        have[key] = value
        verify(model, 'step %d (%s)' % (number, op))
    os.chdir(ctx.scratch)
    ctx.label('%s selections' % (selections if selections < 3 else 'more'),
              'changed' if changed else '')
    ctx.nontrivial(selections > 1 and changed > 0)
