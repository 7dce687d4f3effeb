import json,subprocess
F="""7804ace P23 importing the modules from another folder or through the documented entry points failed or loaded them twice, since they were imported by two names
0925767 P11 writing a multiplier fails where `git describe` does not work (a downloaded copy of the code, another user)
df5868b P09 topomult() fails for a DEM of an integer type, which tiles of an int32 DEM keep
8d7ae22 P05 shielding changes the working directory of the process, so that relative paths no longer hold for the next tile
cf8ba50 P03 terrain averages over zero cells for cells larger than 500 m (division of an empty window)
19bf1f6 P05 shielding of a coarse grid (cells over 100 m) changes the initial values while they are read, so that later directions see the results of the earlier ones
6a7f997 P08 mh_calc wraps around the ends of a line: the crest of a hill is looked for at the other end of the tile
356a49a P09 smoothing of the topographic multiplier takes the edge of a tile from the opposite edge
204604d P11 nc_save_grid returns after the first variable
b1f1372 P11 nc_create_var fails for a variable given with an array
08f1c0b P17 vinc_dist takes the arcsine of a value beyond 1 next to the equator (domain error, or NaN)
960b791 P17 vinc_pt with distance zero divides by zero
1a7c641 P17 GreatCircle fails for lists of points and uses a wrong radius
2204f75 P24 interpolate_grid subdivides with float indices (fails in Python 3)
bd659df P24 interpolate_grid fails for one row or column
e3080ad P18 the sizes of the cells of a raster in a projected reference system take latitude for longitude (axis order of GDAL 3)
ad0050e P01 the last tile's limits came from stored ends, so that tiles without buffer overlap when the buffer is wider than a tile
7515f1f P03 missing cells of a small tile become zero or are averaged
c4e4c02 P13 convert makes a raster of ones of the transposed shape when the multipliers of a direction are missing
ad4bd6b P13 convert fails for a tile without its first multiplier
cff97db P13 missing cells are written as products of the no-data value, not as missing
32af3b7 P14 building the virtual raster fails when there is no tile
8ba8482 P20 spatial joins fail with shapely 2
9664fab P25 fl_save_file fails for a file name without folder
ee6bbe7 P27 cropping by a mask keeps GeometryCollections, which cannot be written to a shapefile
a247c74 P11 nc_save_grid fails without global attributes
863579a P18 the grid of cell sizes has rows and columns swapped
e9b365c P03 the averaging width of the terrain multiplier for wind from east and west is limited by the number of rows
0886084 P01 the name of a tile next to zero degrees is that of another place (exponent cut off)
f9167c7 P11 nc_save_grid writes values whose shape does not fit the dimensions, in part
5c5e03a P13 convert fails for a tile without its northern shielding multiplier
c3ef7e0 P13 the raster of maxima has an empty second band
9432069 P27 dissolve by a numeric attribute with missing or zero values fails (TypeError), and a missing value is merged with the text None
a8d00de P11 the netCDF multipliers name a grid mapping that does not exist, so that GDAL finds no reference system
2cf15a6 P30 fl_module_name gives the name of the function instead of the module
c41d7cb P21 rasterize.py takes CAT whatever attribute is asked for
cc0eca5 P25 a verbose log is shown on standard error, not standard output
4d2a752 P31 a run whose terrain table is missing ends with status 0
10c8415 P31 a terrain table with a class that is not a number is used without any class
1ec149d P22 missing land cover of an unsigned type takes the shielding factor of class 157 or 65437
d1edf38 P27 saving a shapefile turns letters that are not ASCII into question marks
0c32ecd P26 logging a call of a function with an argument named func fails
c7ffede P26 a singleton that is false, as an empty container, is constructed again
06bdb10 P25 a log started after another one, or after earlier messages, is never written
a84898e P31 rasterize.py given an attribute that the shapefile does not have makes a raster of other values with status 0
77623a5 P33 get_slope_aspect leaves numpy ignoring divisions by zero in all of the process
128e428 P32 temporary rasters, GeoTIFFs and virtual rasters that cannot be written in full (full disk) are used or left without an error
e5583e8 P20 the category is made of the settlement twice when the settlement and land use attributes have the same name
a8607a7 P31 rasterize.py and pre_process.py go on after errors of GDAL, so that rasterize.py ends well although the mask cannot be read, with the raster of an earlier run in its place
8940bbf P23 a tile whose elevations are all less than half a metre is skipped as if it were sea
62e5181 P22 land cover of class -99 is taken for missing
5acdffd P20 only the first shape of a crop mask is looked at
5f4bb89 P25 a log folder made by another process at the same time sends the log somewhere else
fd42a21 P11 a user known by number only: nothing is written"""
out=[]
for l in F.splitlines():
    c,p,t=l.split(' ',2)
    body=subprocess.check_output(['git','-C','/repo','log','-1','--format=%b',c],text=True)
    sub=subprocess.check_output(['git','-C','/repo','log','-1','--format=%s',c],text=True)
    t=' '.join(body.split()) or t
    full=subprocess.check_output(['git','-C','/repo','rev-parse','--short=10',c],text=True).strip()
    out.append({'property':p,'status':'fixed','commit':full,'what':t,'line':'fixed: property=%s %s %s'%(p,full,t)})
one='a tile one cell wide or high: GDAL does not locate its netCDF files, so the rasters M3 and M3_max of the tile have no position and their rows may be reversed (Converter.process_tile, utilities/convert.py)'
for p in ('P13','P23'):
    out.append({'property':p,'status':'open','what':one,'input':'a DEM whose last tile is one cell wide or high, as one of 3601 x 3601 cells of one second: tiles of 3600 cells leave one row and one column; P13 generates such tiles and does not compare their location and the order of their rows, P23 does not generate them'})
out.append({'property':'P32','status':'open','what':'rasterize() of pre_process.py ends well although its raster is cut short, when the disk is full or files are limited in length: GDAL 3.8 reports no error for a GeoTIFF without compression, neither when the last blocks are written nor when it is closed','input':'any shapefile and mask whose raster is longer than the limit; the check P32 has no step for this raster'})
json.dump({'about':"Genuine defects found by these checks. 'open' entries are printed as KNOWN-FINDING and excluded by the check of their property, which says how; 'fixed' entries suppress nothing.",'findings':out},open('/verif/known_findings.json','w'),indent=1)
