"""Folders of multipliers, as the conversion finds them."""
import os

import numpy as np
from hypothesis import strategies as st
from netCDF4 import Dataset

from . import geo

ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
KINDS = [('shielding', 'Ms'), ('terrain', 'Mz'), ('topographic', 'Mt')]


@st.composite
def tile_values(draw, missing=True, absent=True):
    """What the 24 files of a tile hold."""
    spec = {'seed': draw(st.integers(0, 10 ** 6)),
            'levels': draw(st.sampled_from([2, 5, 1000])),
            'cells': [], 'files': []}
    if missing:
        spec['cells'] = [list(x) for x in draw(st.lists(st.tuples(
            st.sampled_from(['Ms', 'Mz', 'Mt', 'all']),
            st.sampled_from(ORDER + ['all']),
            st.integers(0, 400), st.sampled_from(['nan', 'nodata'])),
            max_size=4))]
    if absent:
        files = [k + '_' + d for _, k in KINDS for d in ORDER]
        spec['files'] = draw(st.one_of(
            st.just([]), st.just([]),
            st.sets(st.sampled_from(files), max_size=6).map(sorted),
            # all the files of some directions
            st.sets(st.sampled_from(ORDER), min_size=1, max_size=7).map(
                lambda some: [f for f in files if f[3:] in some]),
            # all but one, and all of a multiplier but one
            st.sampled_from(ORDER).map(
                lambda d: [f for f in files if f != 'Ms_' + d]),
            st.sampled_from(ORDER).map(
                lambda d: [f for f in files
                           if f[:2] == 'Ms' and f != 'Ms_' + d]),
            st.sampled_from(['Mz', 'Mt']).map(
                lambda k: [f for f in files if f[:2] == k])))
    return spec


def build(spec, rows, cols):
    """{kind: {direction: values in single precision, with NaN or -9999}}"""
    rng = np.random.RandomState(spec['seed'])
    out = {}
    for _, kind in KINDS:
        out[kind] = {}
        for d in ORDER:
            v = rng.randint(0, spec['levels'], (rows, cols)) / float(
                spec['levels'])
            out[kind][d] = (0.4 + 0.9 * v).astype('float32')
    for kind, direction, cell, how in spec['cells']:
        for _, k in KINDS:
            for d in ORDER:
                if kind in (k, 'all') and direction in (d, 'all'):
                    out[k][d].flat[cell % (rows * cols)] = \
                        np.nan if how == 'nan' else -9999
    return out


def write(root, tile, spec, values, x0, y0, pw, ph):
    for folder, kind in KINDS:
        os.makedirs(os.path.join(root, folder), exist_ok=True)
        for d in ORDER:
            if kind + '_' + d in spec['files']:
                continue
            write_nc(os.path.join(root, folder, '%s_%s_%s.nc' % (
                tile, kind.lower(), d)), kind, values[kind][d], x0, y0, pw,
                ph)


def earlier(root, folder, name, rows, cols, x0, y0, pw, ph, whole):
    """What an earlier conversion left, newer than the multipliers"""
    path = os.path.join(root, folder, name + '.tif')
    if not whole:
        return geo.write_raster(path, np.ones((3, 2)), 0, 0, 1, 1)
    bands = 8 if folder == 'M3' else 1
    ds = geo.gdal.GetDriverByName('GTiff').Create(
        path, cols, rows, bands, geo.gdal.GDT_Float32)
    ds.SetGeoTransform((x0, pw, 0, y0, 0, -ph))
    ds.SetProjection(geo.WGS84)
    for b in range(bands):
        ds.GetRasterBand(b + 1).SetNoDataValue(-9999)
        ds.GetRasterBand(b + 1).Fill(0.7)
    ds = None
    return path


def write_nc(path, name, values, x0, y0, pw, ph):
    """A multiplier in the form documented for the netCDF files"""
    rows, cols = values.shape
    with Dataset(path, 'w', format='NETCDF3_CLASSIC') as nc:
        for dim, n, first, step, units in (
                ('lat', rows, y0 - 0.5 * ph, -ph, 'degrees_north'),
                ('lon', cols, x0 + 0.5 * pw, pw, 'degrees_east')):
            nc.createDimension(dim, n)
            v = nc.createVariable(dim, 'd', (dim,))
            v.units = units
            v.axis = 'Y' if dim == 'lat' else 'X'
            v.standard_name = 'latitude' if dim == 'lat' else 'longitude'
            v[:] = first + step * np.arange(n)
        v = nc.createVariable(name, 'f', ('lat', 'lon'), fill_value=-9999)
        v.set_auto_mask(False)
        v.grid_mapping = 'WGS-1984'
        v[:] = values
        crs = nc.createVariable('crs', 'i', ())
        crs.grid_mapping_name = 'latitude_longitude'
        crs.semi_major_axis = 6378137.0
        crs.inverse_flattening = 298.257222101
        crs.longitude_of_prime_meridian = 0.0


def expected(spec, values):
    """
    The product of each direction (NaN where missing), its maximum, and a
    lower bound of it where a direction is missing:
    (products, maxima, some direction is missing, given as NaN)
    """
    products, nan = [], False
    for d in ORDER:
        p = 1.0
        for _, kind in KINDS:
            if kind + '_' + d in spec['files']:
                continue
            v = values[kind][d].astype(float)
            nan = nan | np.isnan(v)
            p = p * np.where(v == -9999, np.nan, v)
        if np.isscalar(p):
            p = np.full(values['Ms']['n'].shape, p)
        products.append(p)
    products = np.array(products)
    gone = np.isnan(products)
    maxima = np.where(gone.all(axis=0), np.nan,
                      np.where(gone, -1e9, products).max(axis=0))
    return products, maxima, gone.any(axis=0), nan


def read_tif(path):
    """(bands, geotransform, descriptions, nodata, projection, types)"""
    ds = geo.gdal.Open(path)
    bands = [ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)]
    out = (np.array([b.ReadAsArray() for b in bands], dtype=float),
           ds.GetGeoTransform(), [b.GetDescription() for b in bands],
           [b.GetNoDataValue() for b in bands], ds.GetProjection())
    del bands
    ds = None
    return out


def missing(a):
    """A raster with NaN for its missing cells"""
    return np.where(a == -9999, np.nan, a)
