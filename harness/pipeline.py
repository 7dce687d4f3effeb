"""Tiles taken through the whole calculation."""
import os

import numpy as np

from . import env, geo, ref, tiles

KINDS = [('terrain', 'Mz'), ('shielding', 'Ms'), ('topographic', 'Mt')]


def prepare():
    """
    Import the program once, and ask for its version, before processes that
    calculate tiles are forked
    """
    import subprocess
    root = env.scratch_root()
    here = os.getcwd()
    try:
        os.chdir(root)
        import all_multipliers
        import utilities.nctools
        folder = os.path.dirname(os.path.realpath(utilities.nctools.__file__))
        subprocess.check_output(['git', 'describe', '--always'], cwd=folder,
                                stderr=subprocess.DEVNULL)
        return all_multipliers
    except (OSError, subprocess.CalledProcessError):
        return None
    finally:
        os.chdir(here)
        env.remove_scratch(root, root)


def process(out, dem, landcover, infos, job=None):
    """Calculate tiles [name, extent with buffer, extent] as a worker does"""
    import all_multipliers
    all_multipliers.output_folder = out
    tiles.make_folders(out)
    if job is None:
        job = all_multipliers.Multipliers(landcover, dem)
        job.open_dem()
    for info in infos:
        job.multipliers_calculate(job.cut_dem(info), info)
    return job


def names_of(tile):
    return ['%s/%s_%s_%s.nc' % (folder, tile, kind.lower(), d)
            for folder, kind in KINDS for d in geo.DIRECTIONS]


def read(out, tile):
    """{(kind, direction): (values, lat, lon)}, None where missing"""
    found = {}
    for folder, kind in KINDS:
        for d in geo.DIRECTIONS:
            path = os.path.join(out, folder, '%s_%s_%s.nc' % (
                tile, kind.lower(), d))
            found[kind, d] = geo.read_nc(path, kind) if \
                os.path.exists(path) else None
    return found


def listing(root):
    """{path: contents} of all the files below a folder"""
    out = {}
    for folder, _, files in os.walk(root):
        for f in files:
            path = os.path.join(folder, f)
            with open(path, 'rb') as g:
                out[os.path.relpath(path, root)] = g.read()
    return out


def steady(rows, cols, y0, pw, ph):
    """
    (terrain widths by direction, size of the shielding zone), None if
    rounding could go either way
    """
    g = geo.grid_width(rows, cols, y0, pw, ph)
    out = [ref.terrain_widths(d, g) for d in geo.DIRECTIONS]
    if any(w is None for w in out):
        return None
    size = int(100.0 / g)
    if int(100.0 / (g * (1 + 3e-4))) != size or \
            int(100.0 / (g * (1 - 3e-4))) != size:
        return None
    return tuple(out), size


def unsure_aspect(dem, y0, pw, ph):
    """Cells whose aspect is at the edge between two octants"""
    slope, bearing = ref.slope_aspect(dem, y0, pw, ph)
    with np.errstate(invalid='ignore'):
        return (ref.octant_margin(bearing) < 0.05) & (slope > 3.2)
