#!/opt/venv/bin/python
"""Check that what the checks need is installed."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from harness import env  # noqa: E402

env.setup()
import hypothesis  # noqa: E402
import numpy  # noqa: E402
from osgeo import gdal  # noqa: E402

print('python', sys.version.split()[0], 'hypothesis', hypothesis.__version__,
      'numpy', numpy.__version__, 'gdal', gdal.__version__)
