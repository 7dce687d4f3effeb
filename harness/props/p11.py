"""What is written to netCDF is what is read back."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen, geo
from harness.core import fail, require
from utilities.config import configparser as config
from utilities.nctools import nc_create_var, nc_save_grid, \
    save_multiplier

ID = 'P11'
QUICK = 14000
THOROUGH = 40000
RULE = ('A case is a multiplier array with missing cells, its place, type, '
        'direction and configuration, or a grid of 1 to 4 dimensions with '
        'several variables and attributes, possibly malformed in one way. The '
        'file is read back with netCDF4 and, if it is larger than one cell '
        'each way, with GDAL. Non-trivial: at least two different values are '
        'stored, or a malformed grid is refused.')
ASSUMPTIONS = ['GDAL does not locate netCDF files that are one cell wide or '
               'high, and is not asked to']

MULTIPLIERS = {'Mz': 'terrain multiplier', 'Ms': 'shielding multiplier',
               'Mt': 'topographic multiplier'}
WORD = st.text('abcdefghijklmnopqrstuvwxyz0123456789_', min_size=1,
               max_size=8).filter(lambda t: t[0].isalpha())
# some that agree in their beginning or their end
OPTION = st.one_of(WORD, st.builds('{}{}{}'.format, st.sampled_from(
    ['a', 'b', 'path', 'x9']), st.sampled_from(['.', '_', '-', '.', '']),
    st.sampled_from(['a', 'b', '1', 'a.b', 'a_b', 'a-b'])))
TEXT = st.one_of(
    st.sampled_from(['', 'True', '0', '/a/b c/d.tif', 'x = y', 'INFO', '1e-3',
                     'e145.0000s20.0000', u'caf\u00e9']),
    st.text('abc XYZ019._-/=:,', max_size=12).map(str.strip))
DTYPES = ['d', 'f', 'i', 'h', 'b']


@st.composite
def multiplier_case(draw):
    rows = draw(gen.number(1, 12, 150))
    cols = draw(gen.number(1, 12, 150))
    n = rows * cols
    return {
        'what': 'multiplier', 'rows': rows, 'cols': cols,
        'name': draw(st.sampled_from(sorted(MULTIPLIERS))),
        'direction': draw(st.sampled_from(geo.DIRECTIONS)),
        'tile': draw(st.sampled_from(['e145.0000s20.0000', 'e-12.5s-3.25',
                                      'tile', 'n', 'a.b', 'e1.0s2.0_sw'])),
        'values': draw(gen.byte_grid(n)),
        'scale': draw(st.sampled_from([0.01, 0.003, 1 / 3.0])),
        'missing': sorted(draw(st.sets(st.integers(0, n - 1),
                                       max_size=min(n, 4)))),
        'lat': draw(gen.rounded(-60, 60, 3)),
        'lon': draw(gen.rounded(-179, 179, 3)),
        'cell': draw(st.sampled_from([0.1, 0.0002777777777, 0.00025, 0.03])),
        'aspect': draw(st.sampled_from([1, 1, 1.5])),
        'type': draw(st.sampled_from(['float64', 'float32'])),
        'listed': draw(st.booleans()), 'over': draw(st.booleans()),
        'git': draw(st.sampled_from([True] * 7 + [False])),
        'nameless': draw(st.sampled_from([False] * 9 + [True])),
        'extra': draw(st.dictionaries(
            st.sampled_from(['Extra', 'More', 'x1', 'x.2', 'Extra-a']),
            st.dictionaries(OPTION, TEXT, max_size=4), max_size=2))}


@st.composite
def grid_case(draw):
    nd = draw(st.integers(1, 4))
    sizes = [draw(st.integers(1, 5)) for _ in range(nd)]
    nv = draw(st.integers(0, 3))
    variables = []
    for i in range(nv):
        use = draw(st.lists(st.integers(0, nd - 1), max_size=nd, unique=True)
                   .map(sorted))
        variables.append({
            'use': use, 'dtype': draw(st.sampled_from(DTYPES)),
            'values': draw(st.sampled_from(['array', 'array', 'array',
                                            'list', 'none'])),
            'seed': draw(st.integers(0, 250)),
            'atts': draw(st.dictionaries(WORD, st.one_of(
                TEXT, st.integers(-1000, 1000), gen.rounded(-9, 9, 3)),
                max_size=2)),
            'digits': draw(st.sampled_from([None, None, None, 0, 1, 2]))})
    return {
        'what': 'grid', 'sizes': sizes, 'variables': variables,
        'dim_types': [draw(st.sampled_from(['d', 'f', 'i'])) for _ in sizes],
        'gatts': draw(st.one_of(st.none(), st.dictionaries(
            WORD, TEXT, max_size=3))),
        'title': draw(st.one_of(st.none(), st.just('a title'))),
        'nodata': draw(st.sampled_from([-99, -99, 0])),
        'write': draw(st.sampled_from([True, True, True, False])),
        'keep': draw(st.booleans()), 'var': draw(st.booleans()),
        'packed': draw(st.sampled_from([None, True, False])),
        'digits': draw(st.sampled_from([None, None, None, 0, 1, 2])),
        'bad': draw(st.sampled_from(
            ['', '', '', 'dim key', 'var key', 'shape', 'shape', 'path'])),
        'key': draw(st.integers(0, 9)), 'which': draw(st.integers(0, 9))}


def strategy(tier):
    return st.one_of(multiplier_case(), grid_case())


def is_open(path):
    path = os.path.realpath(path)
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == path:
                return True
        except OSError:
            continue
    return False


def check(case, ctx):
    if case['what'] == 'multiplier':
        check_multiplier(case, ctx)
    else:
        check_grid(case, ctx)


def check_multiplier(case, ctx):
    from netCDF4 import Dataset
    rows, cols = case['rows'], case['cols']
    terrain_data, dem_data = ctx.path('land cover.img'), 'dem.tif'
    extra = ''
    for section, options in case['extra'].items():
        extra += '\n[%s]\n' % section
        for key, value in options.items():
            extra += '%s = %s\n' % (key, value)
    cfg = geo.write_config(ctx.path('case.cfg'), ctx.scratch,
                           terrain_data=terrain_data, dem_data=dem_data,
                           extra=extra)
    config.set_config_file(cfg)
    values = 0.4 + gen.unbytes(case['values'], (rows, cols)) * case['scale']
    values = values.astype(case['type'])
    values.flat[case['missing']] = np.nan
    given = values.copy()
    pw, ph = case['cell'], case['cell'] * case['aspect']
    lon = [case['lon'] + (i + 0.5) * pw for i in range(cols)]
    lat = [case['lat'] - (i + 0.5) * ph for i in range(rows)]
    if not case['listed']:
        lon, lat = np.array(lon), np.array(lat)
    path = ctx.path('%s_%s_%s.nc' % (case['tile'], case['name'].lower(),
                                     case['direction']))
    if case['over']:
        with open(path, 'w') as f:
            f.write('something else')
    kept, getuid = dict(os.environ), os.getuid
    if not case['git']:
        # a computer without git
        os.environ['PATH'] = ctx.scratch
    if case['nameless']:
        # a user the computer knows by number only, as in a container
        for key in ('LOGNAME', 'USER', 'LNAME', 'USERNAME'):
            os.environ.pop(key, None)
        os.getuid = lambda: 54321
    try:
        save_multiplier(case['name'], values, lat, lon, path)
    finally:
        os.environ.update(kept)
        os.getuid = getuid
    require(geo.close(values, given, 0).all(), 'the array given is changed')
    require(not is_open(path), 'the file is left open')

    with Dataset(path) as nc:
        nc.set_auto_mask(False)
        v = nc.variables[case['name']]
        require(v.dimensions == ('lat', 'lon'), 'dimensions %s', v.dimensions)
        want = given.astype('float32')
        got = v[:]
        require(got.dtype == np.float32, 'stored as %s', got.dtype)
        same = (got == want) | (np.isnan(want) &
                                (np.isnan(got) | (got == -9999)))
        require(same.all(), 'value %r stored as %r', want[~same][:1],
                got[~same][:1])
        require((nc.variables['lat'][:] == np.array(lat)).all() and
                (nc.variables['lon'][:] == np.array(lon)).all(),
                'coordinates differ')
        require(getattr(nc.variables['lat'], 'units', '') == 'degrees_north'
                and getattr(nc.variables['lon'], 'units', '') ==
                'degrees_east', 'coordinates lost their units')
        require(float(v._FillValue) == -9999, 'missing value %r',
                v._FillValue)
        rng = np.array(v.actual_range, dtype=float)
        if np.isnan(given).all():
            ctx.label('all missing')
        else:
            ends = [np.nanmin(given), np.nanmax(given)]
            require(np.allclose(rng, ends, rtol=1e-6, atol=0),
                    'actual range %s of values in %s', rng, ends)
            for name, x in (('lat', lat), ('lon', lon)):
                ends = nc.variables[name].actual_range
                require(tuple(ends) == (min(x), max(x)), 'range of %s is %s, '
                        'not %s', name, ends, (min(x), max(x)))
        datum = getattr(v, 'grid_mapping', None)
        require(datum in nc.variables, 'the reference system of %s is in %s, '
                'and there are %s', case['name'], datum, list(nc.variables))
        datum = nc.variables[datum]
        require(datum.grid_mapping_name == 'latitude_longitude' and
                abs(datum.semi_major_axis - 6378137) < 0.5 and
                abs(datum.inverse_flattening - 298.2572) < 1e-4 and
                datum.longitude_of_prime_meridian == 0, 'ellipsoid %s',
                {k: datum.getncattr(k) for k in datum.ncattrs()})
        atts = {k: nc.getncattr(k) for k in nc.ncattrs()}
    abstract = atts['Abstract']
    require(MULTIPLIERS[case['name']] in abstract and
            (' in %s direction' % case['direction']) in abstract,
            'abstract of %s: %s', os.path.basename(path), abstract)
    require(case['name'] in atts['title'], 'title %s', atts['title'])
    require(terrain_data in atts['Inputs'] and dem_data in atts['Inputs'],
            'inputs: %s', atts['Inputs'])
    for section in config.sections():
        for option in config.options(section):
            name = '%s_%s' % (section, option)
            require(name in atts, 'option %s is not recorded', name)
            require(atts[name] == config.get(section, option),
                    'option %s is recorded as %r instead of %r', name,
                    atts[name], config.get(section, option))
    for section, options in case['extra'].items():
        for key, value in options.items():
            require(atts['%s_%s' % (section, key)] == value,
                    'option %s of %s is recorded as %r instead of %r', key,
                    section, atts['%s_%s' % (section, key)], value)
    if min(rows, cols) > 1:
        data, gt, srs = geo.read_raster(path)
        datum = geo.osr.SpatialReference(srs)
        require(datum.IsGeographic() == 1 and abs(
            datum.GetSemiMajor() - 6378137) < 0.5,
            'GDAL finds the reference system %r', srs)
        data = np.where(data == -9999, np.nan, data.astype(float))
        require(data.shape == want.shape and geo.close(data, want, 0).all(),
                'GDAL reads other values, or in another order')
        x = gt[0] + (np.arange(cols) + 0.5) * gt[1]
        y = gt[3] + (np.arange(rows) + 0.5) * gt[5]
        require(np.abs(x - np.array(lon)).max() < 1e-4 * pw and
                np.abs(y - np.array(lat)).max() < 1e-4 * ph,
                'GDAL finds the cells at another place: %s', gt)
        ctx.label('gdal')
    ctx.label('missing cells' if case['missing'] else '',
              'options' if case['extra'] else '')
    ctx.nontrivial(len(set(want[~np.isnan(want)])) > 1)


def values_of(v, sizes):
    shape = tuple(sizes[k] for k in v['use'])
    n = int(np.prod(shape))
    base = (np.arange(n) * 37 + v['seed']) % 120
    if v['dtype'] in 'df':
        base = base * 0.37
    return base.astype(v['dtype']).reshape(shape)


def check_grid(case, ctx):
    from netCDF4 import Dataset
    sizes = case['sizes']
    names = ['time', 'level', 'lat', 'lon'][:len(sizes)]
    dims, coords = {}, {}
    for i, (n, name, t) in enumerate(zip(sizes, names, case['dim_types'])):
        coords[name] = (np.arange(n) * 2.5 - i).astype(t)
        dims[i] = {'name': name, 'values': coords[name], 'dtype': t,
                   'atts': {'long_name': 'The ' + name, 'number': i + 1}}
    variables, arrays = {}, {}
    for i, v in enumerate(case['variables']):
        name = 'v%d' % i
        a = values_of(v, sizes)
        arrays[name] = None if v['values'] == 'none' else a
        variables[i] = {
            'name': name, 'dtype': v['dtype'],
            'dims': tuple(names[k] for k in v['use']),
            'values': None if v['values'] == 'none' else
            (a.tolist() if v['values'] == 'list' else a),
            'atts': dict(v['atts'])}
        if v['digits'] is not None:
            variables[i]['least_significant_digit'] = v['digits']
    path = ctx.path('grid.nc')
    bad, expected = case['bad'], None
    if bad == 'dim key':
        d = dims[case['which'] % len(dims)]
        del d[['name', 'values', 'dtype', 'atts'][case['key'] % 4]]
        expected = KeyError
    elif bad == 'var key' and variables:
        v = variables[case['which'] % len(variables)]
        del v[['name', 'values', 'dtype', 'dims', 'atts'][case['key'] % 5]]
        expected = KeyError
    elif bad == 'shape' and variables:
        v = variables[case['which'] % len(variables)]
        a = np.array(values_of(case['variables'][case['which'] %
                                                 len(variables)], sizes))
        how = case['key'] % 4
        if how == 0:
            a = np.concatenate([np.atleast_1d(a), np.atleast_1d(a)])
        elif how == 1:
            a = np.stack([a, a])
        elif how == 2 and a.ndim > 0 and a.shape[0] > 1:
            a = a[:-1]
        elif how == 3 and a.ndim == 2 and a.shape[0] != a.shape[1]:
            a = a.T
        else:
            a = np.stack([a])
        v['values'] = a.tolist() if case['which'] % 2 else a
        expected = ValueError
    elif bad == 'path':
        path = ctx.path('nowhere', 'grid.nc')
        expected = IOError
    kwargs = {'nodata': case['nodata'], 'writedata': case['write'],
              'keepfileopen': case['keep'], 'gatts': case['gatts']}
    if case['title']:
        kwargs['datatitle'] = case['title']
    if case['packed'] is not None:
        kwargs['zlib'] = case['packed']
    if case['digits'] is not None:
        kwargs['lsd'] = case['digits']
    if expected is not None:
        try:
            nc_save_grid(path, dims, variables, **kwargs)
        except expected:
            require(not is_open(path),
                    'the file is left open (%s)' % bad)
        else:
            fail('accepted a grid with a wrong %s', bad)
        ctx.label('refused: ' + bad)
        ctx.nontrivial()
        return
    out = nc_save_grid(path, dims, variables, **kwargs)
    if case['keep'] and case['var']:
        # a variable is added to the file
        extra = values_of({'use': [len(sizes) - 1], 'dtype': 'f', 'seed': 9},
                          sizes)
        made = nc_create_var(out, 'more', (names[-1],), 'f', extra.tolist(),
                             {'units': 'm', 'number': 3})
        require(made.name == 'more', 'made variable %s', made.name)
        arrays['more'] = extra
    if case['keep']:
        require(out is not None and out.isopen(), 'the file is not open')
        for name, a in arrays.items():
            if a is not None and not case['write'] and name != 'more':
                out.variables[name][:] = a
                break
        out.close()
    else:
        require(out is None and not is_open(path), 'the file is left open')
    distinct = 0
    written = case['write']
    with Dataset(path) as nc:
        nc.set_auto_mask(False)
        require(list(nc.dimensions) == names and
                [len(nc.dimensions[n]) for n in names] == sizes,
                'dimensions %s', list(nc.dimensions))
        require(set(nc.variables) == set(names) | set(arrays),
                'variables %s', list(nc.variables))
        for i, name in enumerate(names):
            v = nc.variables[name]
            require((v[:] == coords[name]).all() and
                    v.dtype == coords[name].dtype, 'dimension %s', name)
            require(v.long_name == 'The ' + name and v.number == i + 1,
                    'attributes of dimension %s', name)
        if 'more' in arrays:
            v = nc.variables['more']
            require((v[:] == arrays['more']).all() and v.units == 'm' and
                    v.number == 3 and v.dimensions == (names[-1],),
                    'the variable that is added')
        first = True
        for i, spec in enumerate(case['variables']):
            name = 'v%d' % i
            v = nc.variables[name]
            require(v.dimensions == tuple(names[k] for k in spec['use']),
                    'dimensions of %s: %s', name, v.dimensions)
            require(v.dtype == np.dtype(spec['dtype']), 'type of %s', name)
            require(v._FillValue == case['nodata'], 'missing value of %s',
                    name)
            now = written
            if arrays[name] is not None and not written and case['keep'] \
                    and first:
                now, first = True, False
            if arrays[name] is not None and now:
                digits = case['digits'] if spec['digits'] is None else \
                    spec['digits']
                tol = 0 if digits is None or spec['dtype'] not in 'df' \
                    else 0.501 * 10.0 ** -digits
                require((np.abs(np.asarray(v[:], dtype=float) -
                                arrays[name]) <= tol).all(),
                        'values of %s', name)
                distinct = max(distinct, len(np.unique(arrays[name])))
            else:
                require((np.asarray(v[:]) == case['nodata']).all(),
                        '%s is not missing', name)
            for key, value in spec['atts'].items():
                require(v.getncattr(key) == value, 'attribute %s of %s: %r',
                        key, name, v.getncattr(key))
        for key, value in (case['gatts'] or {}).items():
            if key != 'title':
                require(nc.getncattr(key) == value, 'attribute %s: %r', key,
                        nc.getncattr(key))
        if case['title']:
            require(nc.title == case['title'], 'title %r', nc.title)
    ctx.label('%d dimensions' % len(sizes), 'kept open' if case['keep']
              else '')
    ctx.nontrivial(distinct > 1)
