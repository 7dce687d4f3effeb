"""Rasters, configuration and file reading for the checks."""
import contextlib
import os
import subprocess
import sys
import tempfile

import numpy as np
from osgeo import gdal, osr

gdal.UseExceptions()
gdal.SetConfigOption('GDAL_PAM_ENABLED', 'NO')
osr.UseExceptions()

A = 6378137.0
B = 6356752.3142
E2 = 1.0 - (B / A) ** 2

DIRECTIONS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
# step (row, column) to go upwind: towards where the wind comes from
UPWIND = {'n': (-1, 0), 's': (1, 0), 'e': (0, 1), 'w': (0, -1),
          'ne': (-1, 1), 'nw': (-1, -1), 'se': (1, 1), 'sw': (1, -1)}
TYPES = {'uint8': gdal.GDT_Byte, 'int16': gdal.GDT_Int16,
         'uint16': gdal.GDT_UInt16, 'uint32': gdal.GDT_UInt32,
         'int32': gdal.GDT_Int32,
         'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64}


@contextlib.contextmanager
def as_started(exceptions):
    """
    Errors of GDAL are exceptions as the code asks for, and not as this
    harness does for its own files
    """
    try:
        if exceptions is False:
            gdal.DontUseExceptions()
        yield
    finally:
        gdal.UseExceptions()
        osr.UseExceptions()


def exceptions_in(module):
    """True if errors of GDAL are exceptions once a module is imported"""
    with tempfile.TemporaryDirectory(prefix='wmverif-') as folder:
        p = subprocess.run(
            [sys.executable, '-c', 'import sys; sys.path[:0] = %r\n'
             'import %s\nfrom osgeo import gdal\n'
             'print("exceptions", gdal.GetUseExceptions())' % (
                 [p for p in sys.path if p], module)],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
            cwd=folder)
    return 'exceptions 0' not in p.stdout


def transformer(one, other):
    """What takes (x, y) of an EPSG code to those of another"""
    systems = []
    for code in (one, other):
        srs = osr.SpatialReference()
        srs.ImportFromEPSG(code)
        srs.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        systems.append(srs)
    change = osr.CoordinateTransformation(*systems)
    return lambda x, y: change.TransformPoint(x, y)[:2]


def wkt(epsg=4326):
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s.ExportToWkt()


WGS84 = wkt(4326)


def write_raster(path, array, x0, y0, pw, ph, dtype='float32', driver=None,
                 nodata=None, projection=None):
    """Write an array with its upper left corner at (x0, y0)."""
    if driver is None:
        driver = {'.img': 'HFA', '.tif': 'GTiff'}[os.path.splitext(path)[1]]
    ds = gdal.GetDriverByName(driver).Create(
        path, array.shape[1], array.shape[0], 1, TYPES[dtype])
    ds.SetGeoTransform((x0, pw, 0, y0, 0, -ph))
    ds.SetProjection(WGS84 if projection is None else projection)
    band = ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(np.asarray(array).astype(dtype))
    band.FlushCache()
    ds = None
    return path


LAYOUTS = ['plain', 'bands', 'tiled', 'overviews', 'virtual', 'linked']


def lay_out(path, how):
    """The same raster in another layout; the path where it is then"""
    if how == 'plain':
        return path
    if how == 'linked':
        os.rename(path, path + '.data')
        os.symlink(os.path.basename(path) + '.data', path)
        return path
    stem, ext = os.path.splitext(path)
    if how == 'virtual':
        os.rename(path, stem + '_part' + ext)
        gdal.Translate(stem + '.vrt', stem + '_part' + ext, format='VRT')
        return stem + '.vrt'
    ds = gdal.Open(path)
    if how == 'overviews':
        copy = gdal.GetDriverByName('MEM').CreateCopy('', ds)
        ds = None
        os.unlink(path)
        ds = gdal.GetDriverByName('GTiff').CreateCopy(stem + '.tif', copy)
        ds.BuildOverviews('AVERAGE', [2, 4])
        ds = None
        return stem + '.tif'
    if how == 'bands':
        # the data are those of the first band
        copy = gdal.GetDriverByName('MEM').CreateCopy('', ds)
        for _ in range(2):
            copy.AddBand(copy.GetRasterBand(1).DataType)
        values = copy.GetRasterBand(1).ReadAsArray()
        copy.GetRasterBand(2).WriteArray(values[::-1, ::-1])
        copy.GetRasterBand(3).Fill(1)
        options = []
    else:
        copy = gdal.GetDriverByName('MEM').CreateCopy('', ds)
        options = ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16',
                   'COMPRESS=DEFLATE']
    ds = None
    os.unlink(path)
    gdal.GetDriverByName('GTiff').CreateCopy(stem + '.tif', copy,
                                             options=options)
    return stem + '.tif'


def mem_raster(array, x0, y0, pw, ph, dtype='float32', nodata=None,
               projection=None):
    ds = gdal.GetDriverByName('MEM').Create(
        '', array.shape[1], array.shape[0], 1, TYPES[dtype])
    ds.SetGeoTransform((x0, pw, 0, y0, 0, -ph))
    ds.SetProjection(WGS84 if projection is None else projection)
    band = ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(np.asarray(array).astype(dtype))
    return ds


def read_raster(path):
    """Array (bands first if several), geotransform and projection."""
    ds = gdal.Open(path)
    out = ds.ReadAsArray(), ds.GetGeoTransform(), ds.GetProjection()
    ds = None
    return out


def read_nc(path, name):
    """
    A multiplier read from netCDF, row by row as it is stored:
    (values with NaN where missing, lat, lon)
    """
    from netCDF4 import Dataset
    with Dataset(path) as nc:
        v = nc.variables[name]
        v.set_auto_mask(False)
        lat = nc.variables['lat']
        lon = nc.variables['lon']
        lat.set_auto_mask(False)
        lon.set_auto_mask(False)
        data = np.array(v[:], dtype=float)
        data[data == -9999] = np.nan
        return data, np.array(lat[:]), np.array(lon[:])


def write_config(path, root, terrain_data='lc.img', terrain_table='table.csv',
                 dem_data='dem.img', output='output', upwind_length=0.01,
                 extra=None):
    text = """[inputValues]
root = %s
upwind_length = %s
terrain_data = %s
terrain_table = %s
dem_data = %s

[Output]
output_dir = %s

[Logging]
LogFile = %s
LogLevel = INFO
Verbose = False
""" % (root, upwind_length, terrain_data, terrain_table, dem_data, output,
       os.path.join(root, 'log', 'multipliers.log'))
    if extra:
        text += extra
    with open(path, 'w') as f:
        f.write(text)
    return path


def write_table(path, rows, comments=(), extra_column=False):
    """rows: list of [category, roughness length, shielding]"""
    with open(path, 'w') as f:
        f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING%s\n'
                % (',NOTE' if extra_column else ''))
        for i, (c, z0, ms) in enumerate(rows):
            f.write("%s,'class %d',%r,%s%s\n" % (
                c, i, z0, ms, ',%d' % (7 * i) if extra_column else ''))
        for c in comments:
            f.write('# %s\n' % c)
    return path


def set_config(ctx, table_rows, **kwargs):
    """Make a configuration for one case the one in force."""
    from utilities.config import configparser as config
    table = write_table(ctx.path('table.csv'), table_rows)
    cfg = write_config(ctx.path('case.cfg'), ctx.scratch,
                       terrain_table=table, **kwargs)
    config.set_config_file(cfg)
    return config


# ------------------------------------------------------------------ metric

def meridian_radius(phi):
    return A * (1 - E2) / (1 - E2 * np.sin(phi) ** 2) ** 1.5


def prime_radius(phi):
    return A / np.sqrt(1 - E2 * np.sin(phi) ** 2)


def pixel_sizes(rows, cols, y0, pw, ph):
    """
    Width and height in metres of each pixel of a geographic raster, from
    the radii of curvature (to about 1e-7 for pixels up to 0.1 degree)
    """
    yc = np.radians(y0 - (np.arange(rows) + 0.5) * ph)
    x = prime_radius(yc) * np.cos(yc) * np.radians(pw)
    y = meridian_radius(yc) * np.radians(ph)
    return (np.repeat(x[:, None], cols, axis=1),
            np.repeat(y[:, None], cols, axis=1))


def grid_width(rows, cols, y0, pw, ph):
    x, y = pixel_sizes(rows, cols, y0, pw, ph)
    return 0.5 * (x.mean() + y.mean())


def degrees_for(metres, lat):
    """Cell size in degrees whose mean size is about the one in metres."""
    phi = np.radians(lat)
    per_degree = 0.5 * np.radians(1) * (
        prime_radius(phi) * np.cos(phi) + meridian_radius(phi))
    return metres / per_degree


def extent_of(x0, y0, pw, ph, c0, r0, c1, r1):
    """Extent (x start, y start, x end, y end) of cells [r0:r1, c0:c1]"""
    return (x0 + c0 * pw, y0 - r0 * ph, x0 + c1 * pw, y0 - r1 * ph)


def close(a, b, tol):
    """Elementwise: equal within tol (absolute and relative), NaN to NaN."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    na, nb = np.isnan(a), np.isnan(b)
    with np.errstate(invalid='ignore'):
        ok = np.abs(a - b) <= tol * (1 + np.abs(b))
    return np.where(na | nb, na & nb, ok)
